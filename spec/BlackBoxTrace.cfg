SPECIFICATION TSpec
CONSTANTS Objs = {} Fields = {} Vals = {} MaxOps = 0
CHECK_DEADLOCK FALSE
