SPECIFICATION Spec
CONSTANTS
  Fan = 2
  Depth = 3
  Values = {1, 2}
  MoveNodes = TRUE
  Digits <- DigitsA
INVARIANTS Faithful Canonical
