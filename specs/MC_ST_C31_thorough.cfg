CONSTANT Depth = 0
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Ellipses
INVARIANT AffineDistance
INVARIANT StudentT
