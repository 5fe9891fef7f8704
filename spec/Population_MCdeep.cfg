SPECIFICATION Spec
CONSTANTS
  Start = 3
  Cap = 17
  Steps = 4
INVARIANTS Capacity Inside Untouched Populated NoneInAir Slots Lineage Once
CHECK_DEADLOCK FALSE
