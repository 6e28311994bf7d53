SPECIFICATION Spec
INVARIANT Correct
PROPERTY Terminates
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxDev = 10
  Mode = "noclamp"
