SPECIFICATION Spec
CONSTANT Part = "chain"
CONSTANT Pairs = TRUE
INVARIANT NoRootsNoTrust Monotone LeafSound CtSound ErrorsNamed Emit
