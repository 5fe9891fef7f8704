CONSTANTS Kind = "soft"
 Break = "overshoot"
SPECIFICATION Spec
INVARIANT Bounds
PROPERTY Smooth
CHECK_DEADLOCK FALSE
