SPECIFICATION Spec
CONSTANT Part = "root"
INVARIANT Sound Complete SoundV SoundN Inj Emit
