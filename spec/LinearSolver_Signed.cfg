SPECIFICATION Spec
CONSTANTS
  R = 6
  MaxIt = 5
  SignedMax = TRUE
INVARIANTS ReturnedMeansSolved StopsOnlyWhenNotSolved
CHECK_DEADLOCK FALSE
