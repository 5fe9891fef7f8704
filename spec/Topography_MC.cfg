SPECIFICATION Spec
CONSTANTS
  NCX = 3
  MoveBy <- Mv
  Zs = {0, 32, 96}
  N0 = 5
INVARIANTS Covered InsideBox InRange Level NoNew Walls
CHECK_DEADLOCK FALSE
