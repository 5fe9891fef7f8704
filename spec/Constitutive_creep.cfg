CONSTANTS Kind = "creep"
 Break = "none"
SPECIFICATION Spec
INVARIANT Bounds
PROPERTY Smooth
CHECK_DEADLOCK FALSE
