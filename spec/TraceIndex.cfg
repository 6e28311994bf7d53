SPECIFICATION TraceSpec
INVARIANT Conforms
CHECK_DEADLOCK FALSE
CONSTANTS
  RMax <- TMax
  RLast <- TLast
  R0 <- T0
  R1 <- T1
  R2 <- T2
  R3 <- T3
  R256 <- T256
  MaxLag <- TLag
  ChunkOf <- TChunkOf
  AddrOf <- TAddrOf
