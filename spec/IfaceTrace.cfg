SPECIFICATION TSpec
CONSTANTS Decls = {} MaxCls = 0
 Below <- BelowDef
CHECK_DEADLOCK FALSE
