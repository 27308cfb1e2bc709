SPECIFICATION Spec
CONSTANTS
  N = 5
  M = 5
  Variant = "design"
INVARIANTS InvPrefix InvBest InvAll InvReach
CHECK_DEADLOCK FALSE
