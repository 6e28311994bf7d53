SPECIFICATION Spec
INVARIANTS HonestScan Prefix HonestCopy RightCopy Spared
PROPERTIES Ends Kept
CHECK_DEADLOCK FALSE
CONSTANTS
  Blocks = 6
  TxMax = 2
  Len0 = 7
  Request = 2
  Variant = "now"
