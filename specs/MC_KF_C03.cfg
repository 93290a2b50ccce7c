CONSTANT Depth = 4
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
INVARIANT Optimal
PROPERTY NoneKeeps
