SPECIFICATION Spec
CONSTANTS
  MaxH = 2
  MaxY = 3
  MaxC = 2
INVARIANTS Best Exact
CHECK_DEADLOCK FALSE
