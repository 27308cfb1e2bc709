SPECIFICATION Spec
CONSTANTS
  Variant = "design"
  Kind = "remote"
  Emit = FALSE
INVARIANTS InvTrue InvReads InvBag InvExact InvOne InvNone InvStatus InvWire
CHECK_DEADLOCK FALSE
