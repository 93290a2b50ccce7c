CONSTANT Fresh = FALSE
CONSTANT Depth = 5
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT NewIsPrior
PROPERTY Alone
