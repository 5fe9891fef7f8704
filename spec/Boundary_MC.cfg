SPECIFICATION Spec
CONSTANTS Nx = 4
          Nz = 3
INVARIANTS Honoured Closing Shearing
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
