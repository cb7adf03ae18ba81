SPECIFICATION Spec
CONSTANT Depth = 3
VIEW View
INVARIANTS Inside Private RoundTrip
PROPERTY Kept
CHECK_DEADLOCK FALSE
