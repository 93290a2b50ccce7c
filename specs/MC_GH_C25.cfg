CONSTANT Depth = 6
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Recursion
INVARIANT Orthogonal
