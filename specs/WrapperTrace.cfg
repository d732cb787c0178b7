CONSTANTS Slots = {1, 2, 3} MaxV = 100
SPECIFICATION TSpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
