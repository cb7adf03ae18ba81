SPECIFICATION Spec
CONSTANT Family = "build"
INVARIANTS Sound Works OneKind Emit
