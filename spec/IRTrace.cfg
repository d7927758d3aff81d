SPECIFICATION TSpec
CONSTANTS Names = {} Defs = {} MaxOps = 0
CHECK_DEADLOCK FALSE
