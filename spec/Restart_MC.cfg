SPECIFICATION Spec
CONSTANTS Lost = {} MaxSteps = 3
INVARIANT Continues
CHECK_DEADLOCK FALSE
