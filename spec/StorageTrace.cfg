SPECIFICATION TSpec
CONSTANTS Objs = {}
 Words = 1
 Vals = {}
 MaxOps = 0
CHECK_DEADLOCK FALSE
