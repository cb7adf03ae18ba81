SPECIFICATION Spec
CONSTANT Part = "validate"
INVARIANT Sound Complete SoundV SoundN Inj Emit
