SPECIFICATION SpecSmall
CONSTANTS Lines = 4
Modules = 1
Exhaustive = TRUE
INVARIANT Sound
CHECK_DEADLOCK FALSE
