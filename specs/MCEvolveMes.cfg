SPECIFICATION Spec
CONSTANTS NX = 3
 NP = 2
 Gens = 2
 Algo = "mes"
 Broken = "none"
 NaN = 9
 FTol = 2
INVARIANTS Incumbent ReturnedMes TrueFit
PROPERTIES Elite
CHECK_DEADLOCK FALSE
