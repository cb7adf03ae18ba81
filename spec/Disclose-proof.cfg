SPECIFICATION Spec
CONSTANT Family = "proof"
INVARIANTS Sound Works OneKind Emit
