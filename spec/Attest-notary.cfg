SPECIFICATION Spec
CONSTANT Part = "notary"
INVARIANT Sound Complete SoundV SoundN Inj Emit
