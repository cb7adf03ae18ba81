SPECIFICATION Spec
CONSTANTS Family = "rounds"
  Depth = 3
INVARIANTS Sound Complete Harmful Ends1 Emit
CHECK_DEADLOCK FALSE
