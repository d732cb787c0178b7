SPECIFICATION Spec
CONSTANTS Broken = "none"
 Steps = 6
INVARIANT Fresh
CHECK_DEADLOCK FALSE
