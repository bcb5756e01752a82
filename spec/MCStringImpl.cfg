SPECIFICATION ISpec
CONSTANTS
  MaxEntries = 2
  MaxComps = 2
  MaxMaps = 2
  Lens = {0, 1, 3, 4, 5}
  VIds = {2, 7, 11}
INVARIANTS ReadersAgree AddressesFit
VIEW View
CHECK_DEADLOCK FALSE
