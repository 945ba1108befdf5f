SPECIFICATION Spec
CONSTANTS
  Files = {"a","b"}
  Handles = {"o"}
  MaxSteps = 5
PROPERTY Apart
CHECK_DEADLOCK FALSE
