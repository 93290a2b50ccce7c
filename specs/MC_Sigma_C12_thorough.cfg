CONSTANT Depth = 7
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
INVARIANT SamePoints
INVARIANT Circle
