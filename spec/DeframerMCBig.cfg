SPECIFICATION Spec
CONSTANTS MaxPayload = 4
  MaxOps = 6
  Hdr = 2
  Gen = FALSE
  Streams <- SmallStreams
INVARIANTS ChunkIndependent NeverOverfull Progress OnlyLegal
PROPERTIES Sticky NoLoss
VIEW View
