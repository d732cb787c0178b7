SPECIFICATION Spec
CONSTANTS N = 2
 BROKEN = "base"
 EMIT = FALSE
INVARIANTS Network

CHECK_DEADLOCK FALSE
