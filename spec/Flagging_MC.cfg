SPECIFICATION Spec
CONSTANTS
  Mat = Mat
  Rim = Rim
  Air = Air
  NCX = 4
  NCZ = 4
  Heights = {1, 3, 4, 6, 9, 11, 12, 14}
INVARIANTS Sides Spike Closed Active Idle Vert OneLevel NoAir Lone
CHECK_DEADLOCK FALSE
