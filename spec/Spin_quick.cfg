SPECIFICATION Spec
CONSTANTS N = 2
 Rounds = 2
 TasOrd = 2
 ReadOrd = 0
 ClearOrd = 3
INVARIANTS Right Exclusive
PROPERTY AllIn
CHECK_DEADLOCK FALSE
