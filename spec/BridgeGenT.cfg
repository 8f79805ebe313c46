CONSTANTS MaxSched = 5 MaxHops = 1 Mode = "gen"
INIT Init
NEXT Next
INVARIANTS Emit
CHECK_DEADLOCK FALSE
