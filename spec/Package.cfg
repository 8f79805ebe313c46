SPECIFICATION Spec
CONSTANTS
  MaxOps = 14
  Show = TRUE
INVARIANTS Tidied Sound Emit
PROPERTIES Kept
CHECK_DEADLOCK FALSE
