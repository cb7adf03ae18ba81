CONSTANTS Depth = 2
SPECIFICATION Spec
INVARIANTS Noticed Phases Emit
CHECK_DEADLOCK FALSE
