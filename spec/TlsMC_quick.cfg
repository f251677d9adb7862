CONSTANTS
  Threads = {0, 1}
  Vars = {1, 2}
  Steps = 5
SPECIFICATION Spec
INVARIANTS Apart Gone Kept
CHECK_DEADLOCK FALSE
