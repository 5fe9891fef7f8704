CONSTANTS Kind = "load"
 Break = "sum"
SPECIFICATION Spec
INVARIANT Bounds
PROPERTY Smooth
CHECK_DEADLOCK FALSE
