SPECIFICATION Spec
CONSTANTS Lost = {"chain"} MaxSteps = 3
INVARIANT Continues
CHECK_DEADLOCK FALSE
