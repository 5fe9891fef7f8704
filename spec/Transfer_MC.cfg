SPECIFICATION Spec
CONSTANTS
  Vals = {0, 5}
  Phases = {0, 1}
  Second <- Second0
INVARIANTS Bounded Inactive Constant Fractions Spread
CHECK_DEADLOCK FALSE
