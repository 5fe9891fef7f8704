SPECIFICATION Spec
CONSTANTS
 Nt = 5
 Every = 2
 Late = FALSE
INVARIANTS OneState Due Logged
CHECK_DEADLOCK FALSE
