SPECIFICATION Spec
CONSTANTS
 Kinds = {"rinit", "new", "hook", "hookT", "defer", "throw", "try", "prot"}
 Clauses <- OneName
 MaxU = 5
 Depth = 3
 Show = FALSE
INVARIANTS NoBad Lifo Once AllRun FireNow KeptInUse Nearest OneHandler FinOnce FinRun Identity Failure ProtLast ProtAll GuardEmpty Recovered ByName BySignal SignalTold Failed Hooked
CHECK_DEADLOCK FALSE
