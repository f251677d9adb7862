SPECIFICATION Spec
CONSTANTS Arenas = {1, 2}
 Threads = {0, 1}
 MaxOps = 6
 Chunks = {0, 1}
INVARIANTS Disjoint Inside OneOwner Once NotLost Known Again
CHECK_DEADLOCK FALSE
