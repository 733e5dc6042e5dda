SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Procs = {1, 2, 3}
  MaxInodes = 6
  Kills = 2
  Recheck = TRUE
  RemoveFirst = TRUE
INVARIANTS Mutex Protected RemovesOwn NotBlocked
PROPERTY Ends
