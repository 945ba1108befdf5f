SPECIFICATION Spec
CONSTANTS
  MaxFrames = 4
  MaxParts = 3
  Record = FALSE
INVARIANTS ChainsRight PointsOnce NoHoles AllAtOnce DiffRight
CHECK_DEADLOCK FALSE
