SPECIFICATION Spec
CONSTANTS Length = 4
Kinds = {"record", "update", "call", "list", "map", "names", "iteratees", "args", "ftype", "union"}
Separators = {"", ",", ",,"}
INVARIANTS Accepted Emit
CHECK_DEADLOCK FALSE
