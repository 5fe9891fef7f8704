CONSTANTS Steps = 3
Kinds = {"ld", "st", "add"}
Recheck = TRUE
Guard = "full"
SPECIFICATION Spec
INVARIANT ScheduleFree
CHECK_DEADLOCK FALSE
