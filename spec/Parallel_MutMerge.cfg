CONSTANTS N = 6
T = 8
Off = 1
SPECIFICATION Spec
INVARIANTS Shared Covered Same
CHECK_DEADLOCK FALSE
