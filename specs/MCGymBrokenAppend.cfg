SPECIFICATION Spec
CONSTANTS Broken = "append"
 Steps = 6
INVARIANT Fresh
CHECK_DEADLOCK FALSE
