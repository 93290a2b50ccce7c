CONSTANT Depth = 0
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Variance
INVARIANT Settled
