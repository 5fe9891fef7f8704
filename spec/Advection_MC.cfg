SPECIFICATION Spec
CONSTANTS
  A <- MA
  B <- MB
  C <- MB
  U0 = 64
  Steps = 3
INVARIANTS Inside Identity Straight Exact Bounded
PROPERTY Frozen
CHECK_DEADLOCK FALSE
