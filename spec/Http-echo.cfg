SPECIFICATION Spec
CONSTANT What = "echo"
INVARIANT Guarded Gate Closed Involution Emit
