SPECIFICATION Spec
CONSTANTS
  MaxOps = 14
  Show = TRUE
INVARIANTS Nothing Agree Marked Emit
PROPERTIES Frozen Kept
CHECK_DEADLOCK FALSE
