SPECIFICATION Spec
CONSTANTS Losses = {1, 2, 3, 9}
 NaN = 9
 Max = 6
 Ratio = 100
 Broken = TRUE
INVARIANTS Best

CHECK_DEADLOCK FALSE
