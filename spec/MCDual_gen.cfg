SPECIFICATION Spec
CONSTANTS
  MaxT = 4
  NTracers = 2
  Record = TRUE
  MaxLen = 22
INVARIANTS RangeIsBack OnlyTemporary InStep
CHECK_DEADLOCK FALSE
