SPECIFICATION Spec
CONSTANTS
  Vals = {0, 1, 5}
  Phases = {0, 1}
  Second <- Second1
INVARIANTS Bounded Inactive Constant Fractions Spread
CHECK_DEADLOCK FALSE
