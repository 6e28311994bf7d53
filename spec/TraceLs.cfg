SPECIFICATION TraceSpec
INVARIANT Conforms
CHECK_DEADLOCK FALSE
CONSTANTS
  M0 <- T0
  MFirst <- T256
  MLast <- TLast
  MFs <- T5
  MRootTree <- T1
  MChunkTree <- T3
