SPECIFICATION Spec
CONSTANTS
  MaxT = 5
  NSlots = 2
  Record = TRUE
  MaxLen = 20
INVARIANTS ItemsRight MapRight MapWhole CoveredRight
CHECK_DEADLOCK FALSE
