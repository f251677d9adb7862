SPECIFICATION Spec
CONSTANTS
 Kinds = {"rinit", "defer", "sig", "arm", "try", "throw", "guard", "rethrow", "prot", "panic"}
 Clauses <- Plenty
 MaxU = 14
 Depth = 4
 Show = TRUE
INVARIANTS NoBad Lifo Once AllRun FireNow KeptInUse Nearest OneHandler FinOnce FinRun Identity Failure ProtLast ProtAll GuardEmpty Recovered ByName BySignal SignalTold Failed
CHECK_DEADLOCK FALSE
