SPECIFICATION Spec
CONSTANTS Length = 6
Alphabet = {"a", "n", "x", "4", "\"", "\\", "#", "\n", " "}
INVARIANTS Emit Exact
CHECK_DEADLOCK FALSE
