SPECIFICATION Spec
CONSTANTS N = 2
 BROKEN = "no"
 EMIT = TRUE
CHECK_DEADLOCK FALSE
