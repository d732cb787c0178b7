SPECIFICATION Spec
CONSTANTS N = 2
 BROKEN = "kernel"
 EMIT = FALSE
INVARIANTS Network

CHECK_DEADLOCK FALSE
