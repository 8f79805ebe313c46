SPECIFICATION Spec
CONSTANTS
  Kind = "strings"
INVARIANT Consistent
CHECK_DEADLOCK FALSE
