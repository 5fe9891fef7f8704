SPECIFICATION Spec
CONSTANTS NSteps = 2
          Emit = TRUE
          Slack = 0
INVARIANTS Inv EmitHist
CHECK_DEADLOCK FALSE
