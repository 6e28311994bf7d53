SPECIFICATION TraceSpec
INVARIANT Conforms
CHECK_DEADLOCK FALSE
CONSTANT MaxLag <- TLag
