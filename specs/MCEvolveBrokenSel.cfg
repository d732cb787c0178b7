SPECIFICATION Spec
CONSTANTS NX = 3
 NP = 2
 Gens = 1
 Algo = "mo"
 Broken = "sel"
 NaN = 9
 FTol = 0
INVARIANTS Kept
PROPERTIES Elite
CHECK_DEADLOCK FALSE
