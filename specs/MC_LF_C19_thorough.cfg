CONSTANT Depth = 7
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Minimax0
INVARIANT Cautious
