SPECIFICATION Spec
CONSTANTS MaxLen = 5
 Illegal = TRUE
 Futures = {"r", "w"}
 Conts = {"c1", "c2"}
INVARIANTS Matches Emit
CHECK_DEADLOCK FALSE
