SPECIFICATION Spec
CONSTANTS NX = 3
 NP = 2
 Gens = 1
 Algo = "es"
 Broken = "last"
 NaN = 9
 FTol = 0
INVARIANTS Incumbent
PROPERTIES Elite
CHECK_DEADLOCK FALSE
