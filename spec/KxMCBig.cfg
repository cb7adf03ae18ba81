CONSTANTS Depth = 3
SPECIFICATION Spec
INVARIANTS Noticed Phases Emit
CHECK_DEADLOCK FALSE
