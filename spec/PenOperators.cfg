SPECIFICATION Spec
CONSTANTS Length = 3
Operators = {"+", "-", "*", "/", "==", "!=", "<", "<=", ">", ">=", "&", "|"}
INVARIANTS WellGrouped Emit
CHECK_DEADLOCK FALSE
