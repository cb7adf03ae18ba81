SPECIFICATION CSpec
CONSTANT Part = "cchain"
CONSTANT Pairs = FALSE
INVARIANT CSound CSome Emit
