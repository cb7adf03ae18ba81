SPECIFICATION Spec
CONSTANTS MaxFrag = 16384
  Overhead = 5
  MinSize = 32
  Gen = TRUE
  Sizes <- RealSizes
  Lens <- RealLens
INVARIANTS Bounded Complete Tight Positive
ACTION_CONSTRAINT EmitScn
VIEW View
