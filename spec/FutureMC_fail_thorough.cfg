SPECIFICATION Spec
CONSTANTS N = 2
 MainOps = 5
 ChildOps = 1
 Scopes = TRUE
 Fails = 1 Guards = FALSE
INVARIANTS Right Told Defers Waits Over Made
CHECK_DEADLOCK FALSE
