SPECIFICATION Spec
CONSTANTS Depth2 = FALSE MaxArity = 3
INVARIANT Laws
CHECK_DEADLOCK FALSE
