CONSTANT Depth = 5
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Discounted
INVARIANT Alpha1
INVARIANT Grows
