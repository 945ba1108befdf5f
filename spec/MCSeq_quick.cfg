SPECIFICATION Spec
CONSTANTS
  MaxT = 3
  NSlots = 1
  Record = FALSE
  MaxLen = 20
INVARIANTS ItemsRight MapRight MapWhole CoveredRight
CHECK_DEADLOCK FALSE
