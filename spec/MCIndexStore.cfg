SPECIFICATION Spec
INVARIANTS ViewIsFilePlusPending ClosedIsDurable HeaderAlwaysThere ReservedOwnerNeverStored
PROPERTIES RefusalChangesNothing OnlyMatchingOpens ReadingCreatesNothing InsertVisibleAtOnce
  CommittedSurvives CrashLosesOnlyASuffix FailureChangesNothing FailingTransactionReports
CHECK_DEADLOCK FALSE
CONSTANTS
  RMax = 7
  RLast = 6
  R0 = 0
  R1 = 1
  R2 = 2
  R3 = 3
  R256 = 4
  MaxLag = 2
  MaxPend = 2
  Data = {1, 2}
  Keys <- MCKeys
  Kinds <- MCKinds
