SPECIFICATION Spec
CONSTANT Family = "config"
INVARIANTS Sound Works OneKind Emit
