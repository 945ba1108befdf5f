SPECIFICATION Spec
CONSTANTS
  MaxT = 3
  NTracers = 1
  Record = FALSE
  MaxLen = 22
INVARIANTS RangeIsBack OnlyTemporary InStep
CHECK_DEADLOCK FALSE
