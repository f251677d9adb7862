INIT InitB
NEXT Next
INVARIANTS Inverse64 Plain64
CONSTANTS Alpha = {0, 1, 63, 128, 250, 255} MaxLen = 5 MaxPat = 1
CHECK_DEADLOCK FALSE
