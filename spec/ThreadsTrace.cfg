SPECIFICATION Spec
INVARIANT Sane
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
