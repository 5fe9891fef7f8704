SPECIFICATION Spec
CONSTANTS Lost = {"noise"} MaxSteps = 3
INVARIANT Continues
CHECK_DEADLOCK FALSE
