SPECIFICATION Spec
CONSTANTS N = 3
 Sw = 3
 Sr = 2
 Other = {2, 3}
INVARIANTS NoRace Right Safe
PROPERTIES AllGot Refines
CHECK_DEADLOCK FALSE
