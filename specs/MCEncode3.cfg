SPECIFICATION Spec
CONSTANTS N = 3
 BROKEN = "no"
 EMIT = FALSE
INVARIANTS Network Dense Refused
PROPERTY Stays
CHECK_DEADLOCK FALSE
