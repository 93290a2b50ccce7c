CONSTANT Depth = 6
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
INVARIANT Sequential
INVARIANT Correlated0
INVARIANT CorrelatedM
