CONSTANTS Depth = 5
SPECIFICATION Spec
INVARIANTS Once Keyed Emit
CHECK_DEADLOCK FALSE
