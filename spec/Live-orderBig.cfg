SPECIFICATION Spec
CONSTANTS Depth = 3  Family = "order"
INVARIANTS Genuine Complete Honest Together Rejected Emit
CHECK_DEADLOCK FALSE
