SPECIFICATION Spec
INVARIANTS NoPanic HeaderIntact Complete CrashSafe SameAsOnce
PROPERTY Terminates
CHECK_DEADLOCK FALSE
CONSTANTS
  BlockKinds = {"a", "a2", "v", "f", "i", "e", "dn", "do", "dr"}
  NumBlocks = 3
  TxMax = 1
  Runs = 2
  Variant = "noclamp"
