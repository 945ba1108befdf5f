SPECIFICATION Spec
CONSTANTS
  NFiles = 2
  MaxThings = 2
  Record = FALSE
  MaxLen = 9
INVARIANTS LetGo Writable OnlyWhole Redone
CHECK_DEADLOCK FALSE
PROPERTIES Ends
