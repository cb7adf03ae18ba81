SPECIFICATION Spec
CONSTANTS Family = "odd"
  Depth = 1
INVARIANTS Sound Complete Harmful Ends1 Emit
CHECK_DEADLOCK FALSE
