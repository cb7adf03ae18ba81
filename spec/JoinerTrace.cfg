SPECIFICATION Spec
CONSTANTS MaxHs = 65535
