SPECIFICATION Spec
INVARIANTS Complete Sound Place Emit
