SPECIFICATION Spec
INVARIANTS Consistent Live Emit
CHECK_DEADLOCK FALSE
