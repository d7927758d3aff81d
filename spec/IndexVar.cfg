SPECIFICATION Spec
CONSTANTS N = 9
          X = 6
INVARIANTS MeetsObligations Selected NeverStuck
CHECK_DEADLOCK FALSE
