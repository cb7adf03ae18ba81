CONSTANTS Family_ = "data"
  Depth = 4
SPECIFICATION Spec
INVARIANTS ClosedProperly Phases OneTranscript SameTranscript Together Gate Deferral Emit
CHECK_DEADLOCK FALSE
