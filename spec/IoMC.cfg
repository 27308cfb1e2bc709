CONSTANTS
  Variant = "design"
  MaxLines = 2
  MaxLen = 2
  Emit = FALSE
SPECIFICATION Spec
INVARIANTS InvStream InvSink
CHECK_DEADLOCK FALSE
