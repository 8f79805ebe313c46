SPECIFICATION Spec
CONSTANTS Lines = 12
Modules = 3
Exhaustive = FALSE
INVARIANT Sound
CHECK_DEADLOCK FALSE
