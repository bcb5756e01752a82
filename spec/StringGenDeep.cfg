SPECIFICATION GSpec
CONSTANTS
  MaxEntries = 6
  MaxComps = 4
  MaxMaps = 4
  Lens = {0, 1, 4}
  VIds = {2, 3, 7, 11}
CHECK_DEADLOCK FALSE
