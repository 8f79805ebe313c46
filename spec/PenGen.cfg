SPECIFICATION Spec
CONSTANTS Fuel = 120
Edits = 0
INVARIANT Derived
CHECK_DEADLOCK FALSE
