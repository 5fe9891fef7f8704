CONSTANTS N = 6
T = 8
Off = 0
SPECIFICATION Spec
INVARIANTS Shared Covered Same
CHECK_DEADLOCK FALSE
