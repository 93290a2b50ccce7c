CONSTANT Fresh = TRUE
CONSTANT Depth = 5
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
INVARIANT Separate
PROPERTY NobodyElse
