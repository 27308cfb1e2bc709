SPECIFICATION TraceSpec
CONSTANT One = 4
CHECK_DEADLOCK FALSE
