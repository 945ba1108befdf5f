SPECIFICATION Spec
CONSTANTS
  MaxFrames = 3
  MaxParts = 3
  Record = FALSE
INVARIANTS ChainsRight PointsOnce NoHoles AllAtOnce DiffRight
CHECK_DEADLOCK FALSE
