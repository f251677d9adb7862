SPECIFICATION Spec
CONSTANTS N = 2
 Max = 3
 Ops = {"load", "store", "add", "cas", "casw", "tas"}
INVARIANT Exact
CHECK_DEADLOCK FALSE
