SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3}
 Todo <- Calls
 Inner <- In
 PLACE = "call"
 KEEP = TRUE
 WORK = "three"
INVARIANTS Emit
CHECK_DEADLOCK FALSE
