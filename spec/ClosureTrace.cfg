SPECIFICATION TSpec
CONSTANTS Requests = {} Spellings = {} MaxObj = 0 MaxCalls = 0
CHECK_DEADLOCK FALSE
