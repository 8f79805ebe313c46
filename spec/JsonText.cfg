SPECIFICATION Spec
CONSTANTS
  Kind = "values"
  Part = 0
  Parts = 1
INVARIANT Agree
CHECK_DEADLOCK FALSE
