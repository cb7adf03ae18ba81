SPECIFICATION Spec
CONSTANT Part = "sign"
INVARIANT Sound Complete SoundV SoundN Inj Emit
