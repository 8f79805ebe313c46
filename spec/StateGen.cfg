SPECIFICATION Spec
CONSTANTS
  MaxOps = 5
  MaxHandles = 3
  MaxValues = 3
  Show = TRUE
INVARIANTS Reads Released Emit
CHECK_DEADLOCK FALSE
