SPECIFICATION Spec
CONSTANT Part = "validate2"
INVARIANT Sound Complete SoundV SoundN Inj Emit
