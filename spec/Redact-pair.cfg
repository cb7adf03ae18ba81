SPECIFICATION Spec
CONSTANT What = "pair"
INVARIANT RevealInv FmtInv Emit
CONSTANT Big = FALSE
