SPECIFICATION TSpec
CONSTANT Slack = 3
INVARIANT TInv
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
