SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
 Todo <- Calls
 Inner <- In
 PLACE = "call"
 KEEP = TRUE
 WORK = "nested"
INVARIANTS Emit
CHECK_DEADLOCK FALSE
