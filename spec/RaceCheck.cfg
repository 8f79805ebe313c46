CONSTANTS MaxLists = 2 MaxLen = 2 Mode = "check" Capacity = 1
SPECIFICATION Spec
PROPERTY Ends
CHECK_DEADLOCK FALSE
