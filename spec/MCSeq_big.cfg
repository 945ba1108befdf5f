SPECIFICATION Spec
CONSTANTS
  MaxT = 3
  NSlots = 2
  Record = FALSE
  MaxLen = 20
INVARIANTS ItemsRight MapRight MapWhole CoveredRight
CHECK_DEADLOCK FALSE
