SPECIFICATION Spec
CONSTANTS
  MaxT = 2
  MaxX = 2
  MaxN = 2
INVARIANTS Sound Exists
CHECK_DEADLOCK FALSE
