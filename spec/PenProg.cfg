SPECIFICATION Spec
CONSTANTS
  First = 1
  Count = 50
  Depth = 3
  Focus = "all"
  Fuel = 4000
CHECK_DEADLOCK FALSE
