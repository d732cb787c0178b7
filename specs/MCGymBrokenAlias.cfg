SPECIFICATION Spec
CONSTANTS Broken = "alias"
 Steps = 6
INVARIANT Fresh
CHECK_DEADLOCK FALSE
