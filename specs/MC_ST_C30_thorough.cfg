CONSTANT Depth = 0
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT TotalMass
INVARIANT Distribution
INVARIANT Marginal
INVARIANT OnLine
