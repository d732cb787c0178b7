SPECIFICATION Spec
CONSTANTS NX = 3
 NP = 2
 Gens = 1
 Algo = "mo"
 Broken = "none"
 NaN = 9
 FTol = 0
INVARIANTS Kept TrueFit
PROPERTIES Elite
CHECK_DEADLOCK FALSE
