SPECIFICATION Spec
CONSTANTS
  Kind = "pairs"
  Part = 0
  Parts = 1
INVARIANT Sane
CHECK_DEADLOCK FALSE
