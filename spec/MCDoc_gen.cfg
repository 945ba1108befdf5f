SPECIFICATION Spec
CONSTANTS
  MaxLines = 4
  Record = TRUE
INVARIANTS Same KeepsWords TitlesFirst DefsAreItems Indented Divided
CHECK_DEADLOCK FALSE
