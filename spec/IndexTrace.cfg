SPECIFICATION JSpec
CONSTANTS N = 1
          X = 1
CHECK_DEADLOCK FALSE
