CONSTANTS Family_ = "data"
  Depth = 3
SPECIFICATION Spec
INVARIANTS Sound Final Emit
CHECK_DEADLOCK FALSE
