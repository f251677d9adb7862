SPECIFICATION Spec
CONSTANTS
 Kinds = {"prot", "throw", "rethrow", "try"}
 Clauses <- OneName
 MaxU = 6
 Depth = 2
 Show = FALSE
INVARIANTS NoBad Lifo Once AllRun FireNow KeptInUse Nearest OneHandler FinOnce FinRun Identity Failure ProtLast ProtAll GuardEmpty Recovered ByName BySignal SignalTold Failed
CHECK_DEADLOCK FALSE
