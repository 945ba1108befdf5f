SPECIFICATION Spec
CONSTANTS
  MaxT = 3
  MaxId = 2
  MaxF = 3
  MaxLen = 2
INVARIANTS ReadsRight FramesRight UniqueIds FormatKnown
CHECK_DEADLOCK FALSE
