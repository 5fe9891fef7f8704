SPECIFICATION Spec
CONSTANTS
  M = 1
  Dirs = 5
  Sign = 0
  Wrong = TRUE
INVARIANT Inv
PROPERTIES Frame Easier
CHECK_DEADLOCK FALSE
