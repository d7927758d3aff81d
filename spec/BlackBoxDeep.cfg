SPECIFICATION Spec
CONSTANTS Objs = {1, 2, 3} Fields = {"a", "b"} Vals = {0, 1} MaxOps = 5
INVARIANTS LatchOK AnsweredOK Discoverable
CHECK_DEADLOCK FALSE
