SPECIFICATION Spec
CONSTANT Part = "open"
INVARIANT Sound Complete SoundV SoundN Inj Emit
