SPECIFICATION Spec
CONSTANTS
  Families = {"operators", "meet", "try", "scopes", "records", "comprehensions", "calls", "built", "branches", "peels", "types", "declarations"}
  Step = 1
  Offset = 1
CHECK_DEADLOCK FALSE
