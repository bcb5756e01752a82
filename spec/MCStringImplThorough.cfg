SPECIFICATION ISpec
CONSTANTS
  MaxEntries = 3
  MaxComps = 2
  MaxMaps = 1
  Lens = {0, 2, 5}
  VIds = {2, 11}
INVARIANTS ReadersAgree AddressesFit
VIEW View
CHECK_DEADLOCK FALSE
