CONSTANT Depth = 3
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Probabilities
INVARIANT Spread
INVARIANT Moments
INVARIANT MmaeBayes
INVARIANT NoSwitch
