CONSTANTS Slots = {1, 2} MaxV = 2
SPECIFICATION Spec
INVARIANT TypeOK
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
