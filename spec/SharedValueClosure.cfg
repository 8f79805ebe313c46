SPECIFICATION Spec
CONSTANTS Slots = {1, 2, 3}
 Kinds = {"heap"}
 MaxObjs = 3
 MaxLen = 7
 Values = {}
 Cow = FALSE
INVARIANTS TypeOK Intact Emit
PROPERTY Isolated
CHECK_DEADLOCK FALSE
