SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  DirOf <- PDirOf
