CONSTANT Depth = 0
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT NoiseSteps
INVARIANT Exponential
INVARIANT ClosedForms
INVARIANT Orderings
