CONSTANTS Family_ = "hs"
  Depth = 6
SPECIFICATION Spec
INVARIANTS ClosedProperly Phases OneTranscript SameTranscript Together Gate Deferral Emit
CHECK_DEADLOCK FALSE
