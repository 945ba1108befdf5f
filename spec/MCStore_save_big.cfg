SPECIFICATION Spec
CONSTANTS
  MaxId = 3
  MaxT = 4
  MaxV = 1
  Handles = {}
  MaxTrim = 2
  Record = FALSE
  MaxLen = 0
INVARIANTS TagsRight SavingFaithful
CHECK_DEADLOCK FALSE
