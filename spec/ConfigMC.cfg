SPECIFICATION Spec
INVARIANT Room Emit
