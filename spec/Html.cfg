SPECIFICATION Spec
CONSTANTS
  Kind = "trees"
  Part = 0
  Parts = 1
CHECK_DEADLOCK FALSE
