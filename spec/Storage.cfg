SPECIFICATION Spec
CONSTANTS Objs = {1, 2}
 Words = 2
 Vals = {0, 1}
 MaxOps = 2
INVARIANT LastWrite ContentOK
PROPERTY Frame
CHECK_DEADLOCK FALSE
