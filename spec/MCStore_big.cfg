SPECIFICATION Spec
CONSTANTS
  MaxId = 2
  MaxT = 4
  MaxV = 1
  Handles = {1, 2}
  MaxTrim = 1
  Record = FALSE
  MaxLen = 0
INVARIANTS ViewsComplete SegmentsRight SelectionDivides
CHECK_DEADLOCK FALSE
