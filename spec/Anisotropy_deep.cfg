SPECIFICATION Spec
CONSTANTS
  M = 3
  Dirs = 10
  Sign = 0
  Wrong = FALSE
INVARIANT Inv
PROPERTIES Frame Easier
CHECK_DEADLOCK FALSE
