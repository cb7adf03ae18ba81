SPECIFICATION Spec
CONSTANT Deep = 1
INVARIANT Whole Nested Emit
