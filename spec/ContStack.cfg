SPECIFICATION Spec
CONSTANTS Types = {"u8", "b12", "w3", "w9"}
 Capacities = {1, 16, 64}
 MaxLen = 6
 MaxDepth = 6
INVARIANTS Fits Emit
CHECK_DEADLOCK FALSE
