CONSTANTS Threads = {"a", "b", "c"} Calls = 3 Locked = TRUE
SPECIFICATION Spec
INVARIANTS NoRepetition NoLoss ThreadOrder MutualExclusion
PROPERTY AllDone
CHECK_DEADLOCK FALSE
