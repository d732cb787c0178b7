SPECIFICATION Spec
CONSTANTS XS = {"x", "y", "z"}
 PCS = {"p", "q"}
 Pdiv = TRUE
 Broken = "pdiv"
INVARIANTS FitInv DerivInv CurInv
PROPERTY Reject
CHECK_DEADLOCK FALSE
