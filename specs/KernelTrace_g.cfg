CONSTANTS KSlots = {1, 2, 3} SSlots = {1, 2} Names <- Gduals BadNames = {} Custs = {} MaxLen = 1000
SPECIFICATION TSpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
