SPECIFICATION Spec
CONSTANTS
  MaxOps = 8
  Show = TRUE
INVARIANT Sound
INVARIANT Emit
PROPERTY Grows
CHECK_DEADLOCK FALSE
