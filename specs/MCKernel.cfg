CONSTANTS KSlots = {1, 2} SSlots = {1} Names = {"sum"} BadNames = {"foo"} Custs <- C2 MaxLen = 2
SPECIFICATION Spec
INVARIANTS NeverOverstated NamesKept
PROPERTY OrderKept
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
