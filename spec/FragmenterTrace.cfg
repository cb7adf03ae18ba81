SPECIFICATION Spec
CONSTANTS MaxFrag = 16384
  Overhead = 5
  MinSize = 32
