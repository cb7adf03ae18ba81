SPECIFICATION Spec
CONSTANTS Depth = 2  Family = "odd"
INVARIANTS Genuine Complete Honest Together Rejected Emit
CHECK_DEADLOCK FALSE
