CONSTANT Depth = 2
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
INVARIANT Batches
