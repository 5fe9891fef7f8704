SPECIFICATION Spec
CONSTANTS Patterns = {0, 1, 2, 3}
          Values = {0, 1, 2}
INVARIANT Inv
CHECK_DEADLOCK FALSE
