SPECIFICATION Spec
INVARIANT Stable Sane Emit
