SPECIFICATION Spec
CONSTANT What = "get"
INVARIANT Guarded Gate Closed Involution Emit
