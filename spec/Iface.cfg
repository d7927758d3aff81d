SPECIFICATION Spec
CONSTANTS Below = {} Decls = {1, 2} MaxCls = 5
INVARIANT Nearest
PROPERTY Kept
CHECK_DEADLOCK FALSE
