SPECIFICATION Spec
CONSTANTS
 Kinds = {"prot", "throw", "rethrow", "try", "rinit", "defer", "guard", "panic", "sig"}
 Clauses <- Plenty
 MaxU = 14
 Depth = 4
 Show = TRUE
INVARIANTS NoBad Lifo Once AllRun FireNow KeptInUse Nearest OneHandler FinOnce FinRun Identity Failure ProtLast ProtAll GuardEmpty Recovered ByName BySignal SignalTold Failed
CHECK_DEADLOCK FALSE
