SPECIFICATION SpecSmall
CONSTANTS Lines = 5
Modules = 1
Exhaustive = TRUE
INVARIANT Sound
CHECK_DEADLOCK FALSE
