SPECIFICATION Spec
CONSTANTS
  Kind = "flags"
  Longest = 4
INVARIANT Kept
CHECK_DEADLOCK FALSE
