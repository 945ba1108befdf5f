SPECIFICATION Spec
CONSTANTS
  MaxH = 3
  MaxY = 3
  MaxC = 4
INVARIANTS Best Exact
CHECK_DEADLOCK FALSE
