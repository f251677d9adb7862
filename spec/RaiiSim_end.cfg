SPECIFICATION Spec
CONSTANTS
 Kinds = {"rinit", "defer", "throw", "try", "guard", "cbs", "rethrow", "panic", "new", "sig", "malloc"}
 Clauses <- Plenty
 MaxU = 14
 Depth = 4
 Show = TRUE
INVARIANTS NoBad Lifo Once AllRun FireNow KeptInUse Nearest OneHandler FinOnce FinRun Identity Failure ProtLast ProtAll GuardEmpty Recovered ByName BySignal SignalTold Failed
CHECK_DEADLOCK FALSE
