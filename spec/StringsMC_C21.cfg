INIT InitV
NEXT Next
INVARIANTS Number NearRight
CONSTANTS Alpha = {1} MaxLen = 1 MaxPat = 1
CHECK_DEADLOCK FALSE
