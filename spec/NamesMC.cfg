SPECIFICATION Spec
INVARIANT Trimmed Emit
