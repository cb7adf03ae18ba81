SPECIFICATION Spec
CONSTANT What = "conn"
INVARIANT Guarded Gate Closed Involution Emit
