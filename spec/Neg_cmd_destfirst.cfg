SPECIFICATION Spec
INVARIANTS Right Ends
CHECK_DEADLOCK FALSE
CONSTANTS
  Mode = "destfirst"
