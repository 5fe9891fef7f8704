SPECIFICATION Spec
CONSTANTS NCX = 3
          NCZ = 2
          Temps = {0, 1, 4}
          Ks4 = {0, 1, 2}
          Broken = "air"
INVARIANTS Conserved Bounded Mutual
CHECK_DEADLOCK FALSE
