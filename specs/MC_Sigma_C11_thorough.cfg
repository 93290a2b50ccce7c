CONSTANT Depth = 7
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
INVARIANT Moments
INVARIANT Skew
INVARIANT Affine
INVARIANT SecondOrder
INVARIANT GaussBeta
