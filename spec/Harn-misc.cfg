SPECIFICATION Spec
CONSTANT What = "misc"
INVARIANT BenchInv NetInv Emit
