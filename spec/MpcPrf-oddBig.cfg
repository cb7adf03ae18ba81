CONSTANTS Family_ = "odd"
  Rounds_ = 2
  Depth_ = 5
SPECIFICATION Spec
INVARIANTS Contract Ends Given Emit
CHECK_DEADLOCK FALSE
