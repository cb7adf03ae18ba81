SPECIFICATION Spec
CONSTANT What = "net"
INVARIANT BenchInv NetInv Emit
