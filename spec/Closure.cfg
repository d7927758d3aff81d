SPECIFICATION Spec
CONSTANTS Requests = {1, 2, 3} Spellings = {1} MaxObj = 4 MaxCalls = 6
INVARIANTS OneResult NeverMixed RunOnce Judged
CHECK_DEADLOCK FALSE
