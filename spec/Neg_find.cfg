SPECIFICATION Spec
INVARIANTS FindAgrees RangeAgrees FullAgrees FindIsLocal ListingIsComplete
CHECK_DEADLOCK FALSE
CONSTANTS
  RMax = 7
  RLast = 6
  R0 = 0
  R1 = 1
  R2 = 2
  R3 = 3
  R256 = 4
  MaxLag = 2
  Variant = "find"
  Universe <- MCUniverse
  Queries <- MCQueries
