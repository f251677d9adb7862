SPECIFICATION Spec
CONSTANTS
 Kinds = {"rinit", "new", "defer", "malloc", "afail", "try", "guard", "cancel", "fire", "del", "clean", "throw", "gret", "rethrow"}
 Clauses <- Plenty
 MaxU = 14
 Depth = 4
 Show = TRUE
INVARIANTS NoBad Lifo Once AllRun FireNow KeptInUse Nearest OneHandler FinOnce FinRun Identity Failure ProtLast ProtAll GuardEmpty Recovered ByName BySignal SignalTold Failed
CHECK_DEADLOCK FALSE
