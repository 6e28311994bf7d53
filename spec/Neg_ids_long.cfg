SPECIFICATION Spec
INVARIANTS Accepted Refused
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 1
  MaxLen = 4
  Mode = "long"
