SPECIFICATION Spec
CONSTANT What = "bench"
INVARIANT BenchInv NetInv Emit
