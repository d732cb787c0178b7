SPECIFICATION Spec
CONSTANTS N = 3
 BROKEN = "no"
 EMIT = TRUE
CHECK_DEADLOCK FALSE
