SPECIFICATION Spec
CONSTANTS Slots = {1, 2}
 Types = {"A", "B", "C"}
 MaxLen = 5
 Emitting = TRUE
INVARIANTS Balanced Emit
CHECK_DEADLOCK FALSE
