SPECIFICATION Spec
CONSTANTS
  NFiles = 3
  MaxThings = 3
  Record = TRUE
  MaxLen = 9
INVARIANTS LetGo Writable OnlyWhole Redone
CHECK_DEADLOCK FALSE
