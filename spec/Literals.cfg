SPECIFICATION Spec
CONSTANTS
  Kind = "few"
  Part = 0
  Parts = 1
INVARIANT Once
CHECK_DEADLOCK FALSE
