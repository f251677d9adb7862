SPECIFICATION Spec
CONSTANTS N = 2
 Sw = 0
 Sr = 2
 Other = {2}
INVARIANTS NoRace

CHECK_DEADLOCK FALSE
