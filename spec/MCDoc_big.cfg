SPECIFICATION Spec
CONSTANTS
  MaxLines = 7
  Record = FALSE
INVARIANTS Same KeepsWords TitlesFirst DefsAreItems Indented Divided
CHECK_DEADLOCK FALSE
