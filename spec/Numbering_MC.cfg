SPECIFICATION Spec
CONSTANTS Nx = 3
          Nz = 2
INVARIANTS Bijection Exact
CHECK_DEADLOCK FALSE
