SPECIFICATION Spec
CONSTANTS Requests = {1, 2, 3, 4} Spellings = {1} MaxObj = 5 MaxCalls = 7
INVARIANTS OneResult NeverMixed RunOnce Judged
CHECK_DEADLOCK FALSE
