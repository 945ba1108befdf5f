SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  MaxVal = 4
  MaxBins = 4
INVARIANTS Share Once Right
CHECK_DEADLOCK FALSE
