SPECIFICATION Spec
CONSTANTS
  MaxT = 4
  MaxId = 3
  MaxF = 4
  MaxLen = 3
INVARIANTS ReadsRight FramesRight UniqueIds FormatKnown
CHECK_DEADLOCK FALSE
