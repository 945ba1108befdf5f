SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  MaxVal = 6
  MaxBins = 7
INVARIANTS Share Once Right
CHECK_DEADLOCK FALSE
