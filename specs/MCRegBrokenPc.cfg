SPECIFICATION Spec
CONSTANTS XS = {"x", "y", "z"}
 PCS = {"p", "q"}
 Pdiv = FALSE
 Broken = "pc"
INVARIANTS FitInv DerivInv CurInv
PROPERTY Reject
CHECK_DEADLOCK FALSE
