SPECIFICATION Spec
CONSTANTS TolUnit = 0
          CrashesMax = 1
INVARIANTS SelfLabelled AlwaysRestartable NewestKept CadenceOK TimeIsSum OutputsTimed RunComplete
PROPERTIES Monotone
CHECK_DEADLOCK FALSE
