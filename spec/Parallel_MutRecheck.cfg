CONSTANTS Steps = 2
Kinds = {"ld", "st", "same", "back", "add", "max", "big"}
Recheck = FALSE
Guard = "full"
SPECIFICATION Spec
INVARIANT ScheduleFree
CHECK_DEADLOCK FALSE
