CONSTANT Deep = TRUE
CONSTANT Depth = 8
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT OwnLife
