SPECIFICATION Spec
CONSTANTS MaxVec = 4
 MaxOps = 4
INVARIANTS Conserved InBounds
PROPERTIES Monotone FailKeeps
VIEW View
ACTION_CONSTRAINT Emit
