SPECIFICATION Spec
CONSTANTS MaxPayload = 18432
  Hdr = 5
