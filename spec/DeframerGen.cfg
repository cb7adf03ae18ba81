SPECIFICATION Spec
CONSTANTS MaxPayload = 18432
  MaxOps = 6
  Hdr = 5
  Gen = TRUE
  Streams <- GenStreams
INVARIANTS ChunkIndependent NeverOverfull Progress OnlyLegal
PROPERTIES Sticky NoLoss
ACTION_CONSTRAINT EmitScn
VIEW View
CONSTRAINT Bounded
