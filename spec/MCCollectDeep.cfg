SPECIFICATION Spec
INVARIANT Correct
CHECK_DEADLOCK FALSE
CONSTANTS
  Size = 5
  Mode = "ok"
