SPECIFICATION Spec
CONSTANTS
  Focus = "mix"
  MaxOps = 14
  MaxHandles = 3
  Show = TRUE
INVARIANTS WellFormed WrittenWell Emit
PROPERTY Quiet
CHECK_DEADLOCK FALSE
