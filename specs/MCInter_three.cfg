SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3}
 Todo <- Calls
 Inner <- In
 PLACE = "call"
 KEEP = FALSE
 WORK = "three"
INVARIANTS Undisturbed
CHECK_DEADLOCK FALSE
