CONSTANTS Family_ = "order"
  Depth = 3
SPECIFICATION Spec
INVARIANTS Sound Final Emit
CHECK_DEADLOCK FALSE
