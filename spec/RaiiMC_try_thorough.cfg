SPECIFICATION Spec
CONSTANTS
 Kinds = {"rinit", "defer", "throw", "rethrow", "try", "msg"}
 Clauses <- Some3
 MaxU = 5
 Depth = 3
 Show = FALSE
INVARIANTS NoBad Lifo Once AllRun FireNow KeptInUse Nearest OneHandler FinOnce FinRun Identity Failure ProtLast ProtAll GuardEmpty Recovered ByName BySignal SignalTold Failed
CHECK_DEADLOCK FALSE
