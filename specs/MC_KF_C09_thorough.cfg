CONSTANT Depth = 5
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
INVARIANT Evidence
