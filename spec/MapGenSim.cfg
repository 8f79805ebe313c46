SPECIFICATION SimSpec
CONSTANTS
  NK = 7
  NV = 2
  Length = 14
  Linear = FALSE
INVARIANT Out
PROPERTY Persistent
CHECK_DEADLOCK FALSE
