SPECIFICATION MCSpec
CONSTANTS
  One = 4
  Focus = "C01"
  Depth = 3
  Emit = TRUE
VIEW View
INVARIANTS Requirements Semantics
CHECK_DEADLOCK FALSE
