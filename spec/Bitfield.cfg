SPECIFICATION Spec
INVARIANTS Disjoint Within Written
CHECK_DEADLOCK FALSE
