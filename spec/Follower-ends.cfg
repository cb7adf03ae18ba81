CONSTANTS Family_ = "ends"
  Depth = 6
SPECIFICATION Spec
INVARIANTS Sound Final Emit
CHECK_DEADLOCK FALSE
