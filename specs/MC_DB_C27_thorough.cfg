CONSTANT Depth = 4
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT PathSum
INVARIANT Sums
INVARIANT Compose
INVARIANT Commute
