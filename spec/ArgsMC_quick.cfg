SPECIFICATION Spec
CONSTANTS MaxLists = 2
 MaxProbes = 2
INVARIANTS Once Owned Ended Half
CHECK_DEADLOCK FALSE
