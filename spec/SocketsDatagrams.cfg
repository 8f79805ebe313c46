SPECIFICATION Spec
CONSTANTS
  MaxOps = 24
  Focus = "datagrams"
  Show = TRUE
INVARIANTS Sound Emit
CHECK_DEADLOCK FALSE
