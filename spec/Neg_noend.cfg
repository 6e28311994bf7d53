SPECIFICATION Spec
INVARIANTS Right Pieces
PROPERTY Ends
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxPos = 2
  MaxLen = 3
  MaxGen = 2
  Mode = "noend"
