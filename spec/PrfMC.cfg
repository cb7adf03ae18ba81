SPECIFICATION Spec
INVARIANT Good Emit
