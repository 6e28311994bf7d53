SPECIFICATION Spec
INVARIANTS Refines SameView LockedWhileOpen
CHECK_DEADLOCK FALSE
CONSTANTS
  RMax = 7
  RLast = 6
  R0 = 0
  R1 = 1
  R2 = 2
  R3 = 3
  R256 = 4
  TxMax = 1
  MaxLag = 2
  Variant = "open"
  Keys <- OpenKeys
  Data = {1}
  Kinds <- OpenKinds
  MaxPend = 2
  Addrs <- None
  Opens <- OpenOpens
