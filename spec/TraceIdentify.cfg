SPECIFICATION TraceSpec
INVARIANT Conforms
CHECK_DEADLOCK FALSE
