SPECIFICATION Spec
CONSTANTS
  Names = {"a","b"}
  NObjs = 2
  Vals = {1,2}
INVARIANTS Consistent DescribedOnce
PROPERTY Frame
CHECK_DEADLOCK FALSE
