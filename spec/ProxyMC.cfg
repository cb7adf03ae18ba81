SPECIFICATION Spec
CONSTANT Pairs = FALSE
INVARIANTS Sound Emit
CHECK_DEADLOCK FALSE
