CONSTANTS MaxSched = 6 MaxHops = 1 Mode = "random"
INIT Init
NEXT Next
INVARIANTS Emit
CHECK_DEADLOCK FALSE
