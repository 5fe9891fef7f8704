SPECIFICATION Spec
CONSTANTS
  Start = 3
  Cap = 17
  Steps = 3
INVARIANTS Capacity Inside Untouched Populated NoneInAir Slots Lineage Once
CHECK_DEADLOCK FALSE
