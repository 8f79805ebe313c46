SPECIFICATION Spec
CONSTANTS
  Kind = "values"
  Part = 0
  Parts = 1
INVARIANT Consistent
CHECK_DEADLOCK FALSE
