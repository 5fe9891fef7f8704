SPECIFICATION Spec
INVARIANTS Inv SubInv
PROPERTIES Shrinks
CHECK_DEADLOCK FALSE
