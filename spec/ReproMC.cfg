SPECIFICATION Spec
CONSTANTS
  Variant = "design"
  Len_ = 4
INVARIANT Reproducible
CHECK_DEADLOCK FALSE
