SPECIFICATION Spec
CONSTANTS Depth = 3  Family = "early"
INVARIANTS Genuine Complete Honest Together Rejected Emit
CHECK_DEADLOCK FALSE
