CONSTANT Depth = 5
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Probabilities
INVARIANT MixKeeps
INVARIANT OmegaOK
INVARIANT Spread
INVARIANT Twins
INVARIANT Markov
INVARIANT Moments
INVARIANT NoSwitch
INVARIANT Order
