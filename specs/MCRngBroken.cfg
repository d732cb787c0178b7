CONSTANTS Threads = {"a", "b"} Calls = 2 Locked = FALSE
SPECIFICATION Spec
INVARIANTS NoRepetition
CHECK_DEADLOCK FALSE
