CONSTANTS MaxLen = 4
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
