SPECIFICATION Spec
CONSTANTS N = 2
 BROKEN = "no"
 EMIT = FALSE
INVARIANTS Network Dense Refused
PROPERTY Stays
CHECK_DEADLOCK FALSE
