INIT InitT
NEXT Next
INVARIANTS SearchRight PlainFind PlainEnds
CONSTANTS Alpha = {97, 98, 44} MaxLen = 5 MaxPat = 2
CHECK_DEADLOCK FALSE
