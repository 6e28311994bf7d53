SPECIFICATION Spec
INVARIANT Correct
PROPERTY Terminates
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxDev = 13
  Mode = "ok"
