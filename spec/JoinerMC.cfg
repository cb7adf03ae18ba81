SPECIFICATION Spec
CONSTANTS MaxHs = 3
  MaxOps = 6
  Gen = FALSE
  Streams <- SmallStreams
INVARIANTS SplitIndependent
PROPERTIES Sticky
VIEW View
