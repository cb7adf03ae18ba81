SPECIFICATION Spec
INVARIANTS Enough Emit
CHECK_DEADLOCK FALSE
