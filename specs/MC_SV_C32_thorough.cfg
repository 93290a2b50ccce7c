CONSTANT Depth = 7
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Faithful
PROPERTY SavedForever
