SPECIFICATION Spec
CONSTANTS
  Kind = "random"
  Part = 0
  Parts = 1
INVARIANT Agree
CHECK_DEADLOCK FALSE
