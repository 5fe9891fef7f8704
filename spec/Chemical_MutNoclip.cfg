SPECIFICATION Spec
CONSTANTS NCX = 3
          NCZ = 2
          Xs = {0, 1, 2, 4}
          Ks4 = {0, 1, 2}
          Spreads = {0, 2}
          One = 5
          Broken = "noclip"
INVARIANTS Conserved Bounded Uniform MarkersInside AirMarkersStay Follow
CHECK_DEADLOCK FALSE
