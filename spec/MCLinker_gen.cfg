SPECIFICATION Spec
CONSTANTS
  MaxFrames = 5
  MaxParts = 3
  Record = TRUE
INVARIANTS ChainsRight PointsOnce NoHoles AllAtOnce DiffRight
CHECK_DEADLOCK FALSE
