CONSTANT Depth = 3
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Statistics
INVARIANT Unbiased
INVARIANT Moves
