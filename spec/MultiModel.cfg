SPECIFICATION Spec
CONSTANTS MaxN = 2
INVARIANTS Same Found Grow One
CHECK_DEADLOCK FALSE
