SPECIFICATION Spec
CONSTANTS
  MaxOps = 16
  Show = TRUE
INVARIANTS TypeOK Emit
PROPERTIES Quiet Counted
CHECK_DEADLOCK FALSE
