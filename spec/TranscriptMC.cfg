SPECIFICATION Spec
CONSTANT Depth = 2
VIEW View
INVARIANTS Inside Private RoundTrip
PROPERTY Kept
ACTION_CONSTRAINT EmitScn
CHECK_DEADLOCK FALSE
