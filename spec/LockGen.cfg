SPECIFICATION GSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Procs = {1, 2, 3}
  MaxInodes = 9
  Kills = 1
  Recheck = TRUE
  RemoveFirst = TRUE
INVARIANTS Mutex Protected Show
