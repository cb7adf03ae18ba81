SPECIFICATION Spec
CONSTANTS Depth = 4
INVARIANTS Sound Fair Secret Private Emit
CHECK_DEADLOCK FALSE
