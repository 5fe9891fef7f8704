SPECIFICATION Spec
CONSTANTS NSteps = 1
          Emit = FALSE
          Slack = 0
INVARIANTS Inv
PROPERTIES AcceptedAsTested
VIEW View
CHECK_DEADLOCK FALSE
