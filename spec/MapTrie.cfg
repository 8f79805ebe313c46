SPECIFICATION Spec
CONSTANTS
  Fan = 2
  Depth = 3
  Values = {1, 2}
  MoveNodes = FALSE
  Digits <- DigitsA
INVARIANTS Faithful Canonical
