SPECIFICATION Spec
CONSTANTS
  MaxLines = 5
  Record = FALSE
INVARIANTS Same KeepsWords TitlesFirst DefsAreItems Indented Divided
CHECK_DEADLOCK FALSE
