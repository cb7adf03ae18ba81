SPECIFICATION Spec
CONSTANTS MaxHs = 65535
  MaxOps = 6
  Gen = TRUE
  Streams <- GenStreams
INVARIANTS SplitIndependent
PROPERTIES Sticky
VIEW View
ACTION_CONSTRAINT EmitScn
CONSTRAINT Bounded
