SPECIFICATION Spec
CONSTANTS
  NK = 3
  NV = 1
  Length = 4
  Linear = TRUE
INVARIANT Out
PROPERTY Persistent
CHECK_DEADLOCK FALSE
