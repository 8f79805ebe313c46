CONSTANTS MaxLists = 2 MaxLen = 2 Mode = "random" Capacity = 1
INIT Init
NEXT Next
INVARIANTS Emit
CHECK_DEADLOCK FALSE
