CONSTANT Depth = 7
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Discounted
INVARIANT Alpha1
INVARIANT Grows
