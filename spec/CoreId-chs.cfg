SPECIFICATION CSpec
CONSTANT Part = "chs"
CONSTANT Pairs = FALSE
INVARIANT CSound CSome Emit
