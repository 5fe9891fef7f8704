SPECIFICATION Spec
CONSTANTS
 Nt = 5
 Every = 2
 Late = TRUE
INVARIANTS OneState Due Logged
CHECK_DEADLOCK FALSE
