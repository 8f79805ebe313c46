SPECIFICATION Spec
CONSTANTS
  Counts <- C_StateImplF
  Waiting = FALSE
  Show = FALSE
INVARIANTS Linear Lively Emit
CHECK_DEADLOCK FALSE
