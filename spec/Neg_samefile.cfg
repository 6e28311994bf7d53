SPECIFICATION Spec
PROPERTY Respected
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
CONSTANTS
  Mode = "samefile"
