SPECIFICATION Spec
CONSTANTS NX = 3
 NP = 2
 Gens = 2
 Algo = "es"
 Broken = "none"
 NaN = 9
 FTol = 0
INVARIANTS Incumbent Returned TrueFit
PROPERTIES Elite
CHECK_DEADLOCK FALSE
