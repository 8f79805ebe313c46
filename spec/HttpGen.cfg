SPECIFICATION Spec
CONSTANTS
  MaxExchanges = 3
  Show = TRUE
INVARIANTS Ends Only Names2 Emit
CHECK_DEADLOCK FALSE
