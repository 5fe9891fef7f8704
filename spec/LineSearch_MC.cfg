SPECIFICATION Spec
INVARIANTS Inv NeverEmpty NoFalseStagnation
CHECK_DEADLOCK FALSE
