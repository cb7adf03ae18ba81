SPECIFICATION Spec
CONSTANTS Depth = 3
INVARIANTS Sound Fair Secret Private Emit
CHECK_DEADLOCK FALSE
