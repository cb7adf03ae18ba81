SPECIFICATION Spec
CONSTANTS MaxVec = 4
