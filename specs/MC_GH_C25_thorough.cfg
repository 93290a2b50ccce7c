CONSTANT Depth = 8
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Recursion
INVARIANT Orthogonal
