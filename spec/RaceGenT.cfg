CONSTANTS MaxLists = 2 MaxLen = 3 Mode = "gen" Capacity = 1
INIT Init
NEXT Next
INVARIANTS Emit
CHECK_DEADLOCK FALSE
