SPECIFICATION Spec
CONSTANTS
  Focus = "tree"
  MaxOps = 2
  MaxHandles = 1
  Show = TRUE
INVARIANTS WellFormed WrittenWell Emit
PROPERTY Quiet
CHECK_DEADLOCK FALSE
