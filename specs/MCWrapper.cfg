CONSTANTS Slots = {1, 2} MaxV = 2
SPECIFICATION Spec
INVARIANT TypeOK
PROPERTIES Locality SourceIntact FailureKeeps
VIEW View
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
