CONSTANT Depth = 0
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Products
INVARIANT Orderless
INVARIANT Scaled
INVARIANT Matrix
