SPECIFICATION TraceSpec
INVARIANT Conforms
CHECK_DEADLOCK FALSE
CONSTANTS
  HeaderLen = 101
  ItemLen = 25
  SuperOffset = 65536
  ReservedOwner <- TReserved
