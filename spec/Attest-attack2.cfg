SPECIFICATION Spec
CONSTANT Part = "attack2"
INVARIANT Sound Complete SoundV SoundN Inj Emit
