SPECIFICATION Spec
CONSTANTS Length = 4
Operators = {"+", "-", "*", "/", "==", "!=", "<", "<=", ">", ">=", "&", "|"}
INVARIANTS WellGrouped Emit
CHECK_DEADLOCK FALSE
