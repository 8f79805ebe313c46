SPECIFICATION Spec
CONSTANTS
  Focus = "flags"
  MaxOps = 3
  MaxHandles = 1
  Show = TRUE
INVARIANTS WellFormed WrittenWell Emit
PROPERTY Quiet
CHECK_DEADLOCK FALSE
