CONSTANT Fresh = TRUE
CONSTANT Depth = 8
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT NewIsPrior
INVARIANT Shapes
PROPERTY Alone
