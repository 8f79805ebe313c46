SPECIFICATION Spec
CONSTANTS
  MaxOps = 24
  Focus = "streams"
  Show = TRUE
INVARIANTS Sound Emit
CHECK_DEADLOCK FALSE
