SPECIFICATION Spec
CONSTANTS
 Kinds = {"rinit", "new", "defer", "malloc", "afail", "try", "guard", "cancel"}
 Clauses <- OneName
 MaxU = 4
 Depth = 3
 Show = FALSE
INVARIANTS NoBad Lifo Once AllRun FireNow KeptInUse Nearest OneHandler FinOnce FinRun Identity Failure ProtLast ProtAll GuardEmpty Recovered ByName BySignal SignalTold Failed
CHECK_DEADLOCK FALSE
