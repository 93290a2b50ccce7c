CONSTANT Fresh = TRUE
CONSTANT Depth = 6
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT NewIsPrior
INVARIANT Shapes
PROPERTY Alone
