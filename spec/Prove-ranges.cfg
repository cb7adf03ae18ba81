SPECIFICATION Spec
CONSTANTS Family = "ranges"
  Depth = 1
INVARIANTS Sound Complete Harmful Ends1 Emit
CHECK_DEADLOCK FALSE
