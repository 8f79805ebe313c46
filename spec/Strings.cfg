SPECIFICATION Spec
CONSTANTS
  Kind = "few"
  Part = 0
  Parts = 1
INVARIANT Consistent
CHECK_DEADLOCK FALSE
