SPECIFICATION Spec
CONSTANTS MaxLen = 40
 Illegal = FALSE
 Futures = {"r", "w"}
 Conts = {"c1", "c2"}
INVARIANTS Matches Emit
CHECK_DEADLOCK FALSE
