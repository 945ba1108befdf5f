SPECIFICATION Spec
CONSTANTS
  MaxId = 3
  MaxT = 3
  MaxV = 1
  Handles = {}
  MaxTrim = 1
  Record = FALSE
  MaxLen = 0
INVARIANTS TagsRight SavingFaithful
CHECK_DEADLOCK FALSE
