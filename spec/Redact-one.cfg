SPECIFICATION Spec
CONSTANT What = "one"
INVARIANT RevealInv FmtInv Emit
CONSTANT Big = FALSE
