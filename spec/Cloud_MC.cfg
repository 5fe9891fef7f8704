SPECIFICATION Spec
CONSTANTS
  Heights = {0, 900, 2100}
  Jit = {0, 100}
INVARIANTS Once Inside Valid NotAbove Bound
PROPERTY Full
CHECK_DEADLOCK FALSE
