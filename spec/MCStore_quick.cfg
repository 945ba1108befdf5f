SPECIFICATION Spec
CONSTANTS
  MaxId = 2
  MaxT = 3
  MaxV = 1
  Handles = {1, 2}
  MaxTrim = 0
  Record = FALSE
  MaxLen = 0
INVARIANTS ViewsComplete SegmentsRight SelectionDivides
CHECK_DEADLOCK FALSE
