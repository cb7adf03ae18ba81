SPECIFICATION Spec
CONSTANT What = "fmt"
INVARIANT RevealInv FmtInv Emit
CONSTANT Big = FALSE
