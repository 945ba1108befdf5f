SPECIFICATION Spec
CONSTANTS
  MaxId = 3
  MaxT = 3
  MaxV = 2
  Handles = {1, 2}
  MaxTrim = 1
  Record = TRUE
  MaxLen = 14
INVARIANTS ViewsComplete SegmentsRight
CHECK_DEADLOCK FALSE
