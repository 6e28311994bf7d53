SPECIFICATION Spec
INVARIANTS Right Pieces
PROPERTY Ends
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxPos = 3
  MaxLen = 3
  MaxGen = 3
  Mode = "sweep"
