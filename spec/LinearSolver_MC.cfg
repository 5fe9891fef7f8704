SPECIFICATION Spec
CONSTANTS
  R = 6
  MaxIt = 5
  SignedMax = FALSE
INVARIANTS ReturnedMeansSolved StopsOnlyWhenNotSolved
CHECK_DEADLOCK FALSE
