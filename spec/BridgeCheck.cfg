CONSTANTS MaxSched = 1 MaxHops = 1 Mode = "check"
SPECIFICATION Spec
INVARIANTS NotStuck OneResult
PROPERTY Completes
CHECK_DEADLOCK FALSE
