SPECIFICATION Spec
CONSTANTS
  Mat = Mat
  Rim = Rim
  Air = Air
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
