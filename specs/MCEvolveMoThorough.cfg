SPECIFICATION Spec
CONSTANTS NX = 2
 NP = 3
 Gens = 1
 Algo = "mo"
 Broken = "none"
 NaN = 9
 FTol = 0
INVARIANTS Kept TrueFit
PROPERTIES Elite
CHECK_DEADLOCK FALSE
