SPECIFICATION Spec
CONSTANTS
  Fmts <- FmtsDef
  Ops = {"Add", "Sub", "Mul", "Div"}
  Modes = {"RNE", "RTZ", "RDN", "RUP", "RMM", "AWAY"}
INVARIANTS Correct RootOk RemOk IntOk FmaOk NoCarry
CHECK_DEADLOCK FALSE
