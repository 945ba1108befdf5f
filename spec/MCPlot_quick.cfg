SPECIFICATION Spec
CONSTANTS
  NFigs = 2
  MaxDraws = 4
INVARIANTS Panels Counted
PROPERTY Accumulates
CHECK_DEADLOCK FALSE
