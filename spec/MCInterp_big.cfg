SPECIFICATION Spec
CONSTANTS
  MaxSteps = 6
  Methods = {"inv", "corrfun", "rbf"}
  Ks = {1, 2, 3}
INVARIANTS Current Right Within Deaf Alone
CHECK_DEADLOCK FALSE
