SPECIFICATION Spec
CONSTANTS
  M = 1
  Dirs = 5
  Sign = 1
  Wrong = FALSE
INVARIANT Inv
PROPERTIES Frame Easier
CHECK_DEADLOCK FALSE
