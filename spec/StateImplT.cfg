SPECIFICATION Spec
CONSTANTS
  Counts <- C_StateImplT
  Waiting = TRUE
  Show = TRUE
INVARIANTS Linear Lively Emit
CHECK_DEADLOCK FALSE
