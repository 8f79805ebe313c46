SPECIFICATION Spec
CONSTANTS Types = {"u8", "b12", "w3", "w9", "unit"}
 Capacities = {1, 8, 9, 16, 24, 40, 64}
 MaxLen = 7
 MaxDepth = 6
INVARIANTS Fits Emit
CHECK_DEADLOCK FALSE
