SPECIFICATION Spec
CONSTANTS Length = 5
Operators = {"-", "*", "==", "&", "|"}
INVARIANTS WellGrouped Emit
CHECK_DEADLOCK FALSE
