SPECIFICATION Spec
CONSTANTS Types = {"u8", "b12", "w3", "w9", "unit", "f64"}
 Capacities = {1, 2, 7, 8, 9, 16, 17, 24, 40, 64, 100}
 MaxLen = 60
 MaxDepth = 25
INVARIANTS Fits Emit
CHECK_DEADLOCK FALSE
