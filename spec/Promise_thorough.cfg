SPECIFICATION Spec
CONSTANTS N = 4
 Sw = 3
 Sr = 2
 Other = {2, 4}
INVARIANTS NoRace Right Safe
PROPERTIES AllGot Refines
CHECK_DEADLOCK FALSE
