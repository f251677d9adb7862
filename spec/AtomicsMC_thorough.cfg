SPECIFICATION Spec
CONSTANTS N = 3
 Max = 3
 Ops = {"load", "xchg", "add", "cas", "casw", "lock", "unlock"}
INVARIANT Exact
CHECK_DEADLOCK FALSE
