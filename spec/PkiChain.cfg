SPECIFICATION Spec
CONSTANT Part = "chain"
CONSTANT Pairs = FALSE
INVARIANT NoRootsNoTrust Monotone LeafSound CtSound ErrorsNamed Emit
