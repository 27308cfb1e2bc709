SPECIFICATION Spec
CONSTANTS
  N = 3
  Size = 2
  Period = 1
  MaxTime = 3
  Variant = "design"
  Emit = FALSE
INVARIANTS InvDiff InvContent InvForward InvOne InvHandOver InvMaintained
CHECK_DEADLOCK FALSE
