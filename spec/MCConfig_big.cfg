SPECIFICATION Spec
CONSTANTS
  Files = {"a","b"}
  Handles = {"o","p"}
  MaxSteps = 5
PROPERTY Apart
CHECK_DEADLOCK FALSE
