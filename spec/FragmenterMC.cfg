SPECIFICATION Spec
CONSTANTS MaxFrag = 8
  Overhead = 2
  MinSize = 4
  Gen = FALSE
  Sizes <- SmallSizes
  Lens <- SmallLens
INVARIANTS Bounded Complete Tight Positive
