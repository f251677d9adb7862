SPECIFICATION Spec
CONSTANTS N = 2
 MainOps = 4
 ChildOps = 1
 Scopes = TRUE
 Fails = 0 Guards = TRUE
INVARIANTS Right Told Defers Waits Over Made
CHECK_DEADLOCK FALSE
