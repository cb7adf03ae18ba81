CONSTANTS Family_ = "life"
  Depth = 3
SPECIFICATION Spec
INVARIANTS ClosedProperly Phases OneTranscript SameTranscript Together Gate Deferral Emit
CHECK_DEADLOCK FALSE
