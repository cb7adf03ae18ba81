CONSTANTS Family_ = "order"
  Rounds_ = 3
  Depth_ = 4
SPECIFICATION Spec
INVARIANTS Contract Ends Given Emit
CHECK_DEADLOCK FALSE
