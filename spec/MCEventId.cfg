SPECIFICATION PSpec
CONSTANTS
  MaxLen = 6
  Alphabet = {97, 195, 32, 11, 30, 0, 127}
INVARIANTS MachineAgrees RoundTrip Prefix
CHECK_DEADLOCK FALSE
