CONSTANT Depth = 5
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Minimax0
INVARIANT Cautious
