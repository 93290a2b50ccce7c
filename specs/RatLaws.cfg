CONSTANTS N = 6  D = 5
INIT Init
NEXT Next
INVARIANT Laws
CHECK_DEADLOCK FALSE
