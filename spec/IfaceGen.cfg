SPECIFICATION GSpec
CONSTANTS Below = {} Decls = {} MaxCls = 0 Ty = {"A", "B"}
INVARIANT Sane
CHECK_DEADLOCK FALSE
