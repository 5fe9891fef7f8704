SPECIFICATION Spec
CONSTANTS Inc = {0, 3, 7}
 Temps = {1, 2, 3}
 Steps = 2
INVARIANTS Ceiling Running NoAirStrain Turned
PROPERTIES Forward Legal
CHECK_DEADLOCK FALSE
