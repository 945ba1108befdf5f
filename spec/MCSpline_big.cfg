SPECIFICATION Spec
CONSTANTS
  MaxC = 2
  MaxD = 2
INVARIANTS Exact Accepted Seen SeenFive One
CHECK_DEADLOCK FALSE
