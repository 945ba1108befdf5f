SPECIFICATION Spec
CONSTANTS
  MaxT = 3
  MaxId = 2
INVARIANTS Checked OwnAnswers
CHECK_DEADLOCK FALSE
