SPECIFICATION Spec
CONSTANTS Slots = {1, 2, 3}
 Kinds = {"heap", "static", "empty"}
 MaxObjs = 2
 MaxLen = 6
 Values = {7}
 Cow = TRUE
INVARIANTS TypeOK Intact Emit
PROPERTY Isolated
CHECK_DEADLOCK FALSE
