SPECIFICATION Spec
INVARIANTS AnsweredAlone NumbersTell NoDeadlock

CHECK_DEADLOCK FALSE
CONSTANTS
  Mode = "order"
  Procs = {1, 2}
  Rounds = 2
