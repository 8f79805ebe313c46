SPECIFICATION Spec
CONSTANTS
  Counts <- C_StateImpl
  Waiting = TRUE
  Show = TRUE
INVARIANTS Linear Lively Emit
CHECK_DEADLOCK FALSE
