SPECIFICATION Spec
CONSTANTS
 Kinds = {"rinit", "new", "hook", "hookT", "defer", "throw", "panic", "try", "guard", "recov", "prot", "malloc", "fire", "clean", "rethrow", "msg", "sig"}
 Clauses <- Plenty
 MaxU = 14
 Depth = 4
 Show = TRUE
INVARIANTS NoBad Lifo Once AllRun FireNow KeptInUse Nearest OneHandler FinOnce FinRun Identity Failure ProtLast ProtAll GuardEmpty Recovered ByName BySignal SignalTold Failed Hooked
CHECK_DEADLOCK FALSE
