SPECIFICATION Spec
CONSTANT Part = "hs"
CONSTANT Pairs = FALSE
INVARIANT NoRootsNoTrust Monotone LeafSound CtSound ErrorsNamed Emit
