CONSTANT Depth = 8
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
INVARIANT SamePoints
