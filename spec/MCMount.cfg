SPECIFICATION Spec
INVARIANTS AnsweredAlone NumbersTell NoDeadlock
PROPERTY Answered
CHECK_DEADLOCK FALSE
CONSTANTS
  Mode = "ok"
  Procs = {1, 2}
  Rounds = 2
