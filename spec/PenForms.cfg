SPECIFICATION Spec
CONSTANTS
  Families = {"boolean", "number", "chain", "list", "listequal", "comp", "comp2", "union", "any", "widen", "equal", "record", "assign", "map", "try", "closure"}
  Offset = 0
  Fuel = 4000
  Step = 2
CHECK_DEADLOCK FALSE
