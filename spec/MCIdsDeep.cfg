SPECIFICATION Spec
INVARIANTS Accepted Refused
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 2
  MaxLen = 5
  Mode = "ok"
