CONSTANTS Depth = 4
SPECIFICATION Spec
INVARIANTS Once Keyed Emit
CHECK_DEADLOCK FALSE
