SPECIFICATION Spec
CONSTANT Small = TRUE
INVARIANT Chosen Offer12 Emit
