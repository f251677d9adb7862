SPECIFICATION Spec
CONSTANTS
 Kinds = {"rinit", "defer", "throw", "panic", "guard", "recov", "gret", "try", "malloc", "cancel", "fire", "clean", "rethrow", "msg"}
 Clauses <- Plenty
 MaxU = 14
 Depth = 4
 Show = TRUE
INVARIANTS NoBad Lifo Once AllRun FireNow KeptInUse Nearest OneHandler FinOnce FinRun Identity Failure ProtLast ProtAll GuardEmpty Recovered ByName BySignal SignalTold Failed
CHECK_DEADLOCK FALSE
