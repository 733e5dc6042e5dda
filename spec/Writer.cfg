SPECIFICATION Spec
CONSTANTS
  New <- MCNew
  Old <- MCOld
  Shared <- MCShared
  Omit = "none"
  DirOf <- WDirOf
INVARIANTS Intact ConfigIntact Done
CHECK_DEADLOCK FALSE
