SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
 Todo <- Calls
 Inner <- In
 PLACE = "thread"
 KEEP = FALSE
 WORK = "nested"
INVARIANTS Undisturbed
CHECK_DEADLOCK FALSE
