CONSTANTS MaxExh = 3 MaxArgs = 6 Longer = 160
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
