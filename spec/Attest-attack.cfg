SPECIFICATION Spec
CONSTANT Part = "attack"
INVARIANT Sound Complete SoundV SoundN Inj Emit
