SPECIFICATION Spec
INVARIANT Correct
CHECK_DEADLOCK FALSE
CONSTANTS
  Size = 4
  Mode = "drawn"
