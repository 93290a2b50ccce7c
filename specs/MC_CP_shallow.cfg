CONSTANT Deep = FALSE
CONSTANT Depth = 6
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT OwnLife
