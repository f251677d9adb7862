SPECIFICATION Spec
CONSTANTS N = 1
 MainOps = 5
 ChildOps = 2
 Scopes = FALSE
 Fails = 0 Guards = TRUE
INVARIANTS Right Told Defers Waits Over Made
CHECK_DEADLOCK FALSE
