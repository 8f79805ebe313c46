CONSTANTS MaxExh = 2 MaxArgs = 6 Longer = 40
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
