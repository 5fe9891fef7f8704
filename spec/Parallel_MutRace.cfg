CONSTANTS Steps = 2
Kinds = {"ld", "st", "same", "back", "add", "max"}
Recheck = TRUE
Guard = "none"
SPECIFICATION Spec
INVARIANT ScheduleFree
CHECK_DEADLOCK FALSE
