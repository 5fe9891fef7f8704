SPECIFICATION Spec
CONSTANTS Vals <- Vals0
 Pos <- Pos0
 Fr = {0, 2, 3}
INVARIANTS Untouched NoRelax Even Within Agree Rot
CHECK_DEADLOCK FALSE
