SPECIFICATION Spec
CONSTANT Pairs = TRUE
INVARIANTS Sound Emit
CHECK_DEADLOCK FALSE
