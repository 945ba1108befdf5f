SPECIFICATION Spec
CONSTANTS
  MaxT = 2
  MaxX = 2
  MaxN = 3
INVARIANTS Sound Exists
CHECK_DEADLOCK FALSE
