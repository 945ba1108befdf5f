SPECIFICATION Spec
CONSTANTS
  MaxSteps = 4
  Methods = {"inv", "corrfun", "rbf"}
  Ks = {1, 2}
INVARIANTS Current Right Within Deaf Alone
CHECK_DEADLOCK FALSE
