SPECIFICATION Spec
CONSTANTS
  Focus = "dirs"
  MaxOps = 12
  MaxHandles = 3
  Show = TRUE
INVARIANTS WellFormed WrittenWell Emit
PROPERTY Quiet
CHECK_DEADLOCK FALSE
