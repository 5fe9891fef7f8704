SPECIFICATION Spec
CONSTANTS NXS = {3, 4} NZS = {3, 4} Lows <- LL Sizes = {1, 2, 5} Vels <- VV Vals = {0, 2}
INVARIANTS Tiles Follows Average Linear Frame Columns
CHECK_DEADLOCK FALSE
