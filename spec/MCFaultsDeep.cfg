SPECIFICATION Spec
INVARIANTS HonestScan Prefix HonestCopy RightCopy Spared
PROPERTIES Ends Kept
CHECK_DEADLOCK FALSE
CONSTANTS
  Blocks = 8
  TxMax = 3
  Len0 = 9
  Request = 3
  Variant = "now"
