SPECIFICATION Spec
CONSTANT Part = "ct"
CONSTANT Pairs = FALSE
INVARIANT NoRootsNoTrust Monotone LeafSound CtSound ErrorsNamed Emit
