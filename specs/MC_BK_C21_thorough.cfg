CONSTANT Depth = 5
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Probabilities
INVARIANT Spread
INVARIANT Moments
INVARIANT MmaeBayes
INVARIANT NoSwitch
