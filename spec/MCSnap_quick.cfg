SPECIFICATION Spec
CONSTANTS
  MaxT = 2
  MaxN = 3
INVARIANTS SomeAnswer LonelyIn SegIsBoth SnapFaithful
CHECK_DEADLOCK FALSE
