SPECIFICATION Spec
CONSTANTS
  NK = 3
  NV = 2
  Length = 5
  Linear = TRUE
INVARIANT Out
PROPERTY Persistent
CHECK_DEADLOCK FALSE
