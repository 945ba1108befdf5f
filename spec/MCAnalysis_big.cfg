SPECIFICATION Spec
CONSTANTS
  MaxT = 4
  MaxId = 2
INVARIANTS Checked OwnAnswers
CHECK_DEADLOCK FALSE
