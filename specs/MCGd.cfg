SPECIFICATION Spec
CONSTANTS Losses = {1, 2, 3, 9}
 NaN = 9
 Max = 6
 Ratio = 100
 Broken = FALSE
INVARIANTS Best Counts Minimum
PROPERTIES Monotone Ends
CHECK_DEADLOCK FALSE
