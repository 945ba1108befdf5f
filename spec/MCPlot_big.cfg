SPECIFICATION Spec
CONSTANTS
  NFigs = 3
  MaxDraws = 5
INVARIANTS Panels Counted
PROPERTY Accumulates
CHECK_DEADLOCK FALSE
