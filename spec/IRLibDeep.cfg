SPECIFICATION Spec
CONSTANTS Names = {"a", "b", "c"} Defs = {1, 2, 3} MaxOps = 5
INVARIANTS AcceptedInOrder FirstWins Distinct Computes
PROPERTY Stable
CHECK_DEADLOCK FALSE
