SPECIFICATION Spec
CONSTANTS
  MaxOps = 14
  MaxHandles = 5
  MaxValues = 9
  Show = TRUE
INVARIANTS Reads Released Emit
CHECK_DEADLOCK FALSE
