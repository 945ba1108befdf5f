SPECIFICATION Spec
CONSTANTS
  MaxT = 2
  NTracers = 2
  Record = FALSE
  MaxLen = 22
INVARIANTS RangeIsBack OnlyTemporary InStep
CHECK_DEADLOCK FALSE
