SPECIFICATION Spec
CONSTANTS XS = {"x", "y", "z"}
 PCS = {"p", "q"}
 Pdiv = TRUE
 Broken = "no"
INVARIANTS FitInv DerivInv CurInv
PROPERTY Reject
CHECK_DEADLOCK FALSE
