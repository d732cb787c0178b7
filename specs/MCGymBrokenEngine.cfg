SPECIFICATION Spec
CONSTANTS Broken = "engine"
 Steps = 6
INVARIANT Fresh
CHECK_DEADLOCK FALSE
