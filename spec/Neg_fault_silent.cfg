SPECIFICATION Spec
INVARIANTS HonestScan Prefix HonestCopy RightCopy Spared
PROPERTIES Ends Kept
CHECK_DEADLOCK FALSE
CONSTANTS
  Blocks = 3
  TxMax = 2
  Len0 = 4
  Request = 2
  Variant = "silent"
