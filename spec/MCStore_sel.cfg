SPECIFICATION Spec
CONSTANTS
  MaxId = 2
  MaxT = 2
  MaxV = 3
  Handles = {}
  MaxTrim = 0
  Record = FALSE
  MaxLen = 0
INVARIANTS SelectionDivides Complement
CHECK_DEADLOCK FALSE
