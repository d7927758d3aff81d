SPECIFICATION Spec
CONSTANTS MaxN = 3
INVARIANTS Same Found Grow One
CHECK_DEADLOCK FALSE
