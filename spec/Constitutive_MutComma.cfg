CONSTANTS Kind = "melt"
 Break = "comma"
SPECIFICATION Spec
INVARIANT Bounds
PROPERTY Smooth
CHECK_DEADLOCK FALSE
