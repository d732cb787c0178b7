SPECIFICATION Spec
CONSTANTS NX = 3
 NP = 2
 Gens = 1
 Algo = "es"
 Broken = "final"
 NaN = 9
 FTol = 0
INVARIANTS Returned
PROPERTIES Elite
CHECK_DEADLOCK FALSE
