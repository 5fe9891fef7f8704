SPECIFICATION TSpec
CONSTANTS TolUnit = 2
          CrashesMax = 100
INVARIANTS SelfLabelled AlwaysRestartable NewestKept CadenceOK TimeIsSum OutputsTimed RunComplete
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
