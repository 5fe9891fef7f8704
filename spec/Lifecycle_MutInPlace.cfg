SPECIFICATION SpecInPlace
CONSTANTS TolUnit = 0
          CrashesMax = 1
INVARIANTS SelfLabelled AlwaysRestartable NewestKept CadenceOK TimeIsSum OutputsTimed RunComplete
CHECK_DEADLOCK FALSE
