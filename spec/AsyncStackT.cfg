SPECIFICATION Spec
CONSTANTS MaxLen = 6
 Illegal = TRUE
 Futures = {"r", "w"}
 Conts = {"c1", "c2"}
INVARIANTS Matches Emit
CHECK_DEADLOCK FALSE
