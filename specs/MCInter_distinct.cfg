SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
 Todo <- Calls
 Inner <- In
 PLACE = "call"
 KEEP = FALSE
 WORK = "distinct"
INVARIANTS Undisturbed
CHECK_DEADLOCK FALSE
