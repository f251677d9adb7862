CONSTANTS
  Threads = {0, 1, 2}
  Vars = {1}
  Steps = 8
SPECIFICATION Spec
INVARIANTS Apart Gone Kept
CHECK_DEADLOCK FALSE
