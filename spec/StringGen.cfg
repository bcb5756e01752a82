SPECIFICATION GSpec
CONSTANTS
  MaxEntries = 2
  MaxComps = 2
  MaxMaps = 1
  Lens = {0, 1, 4}
  VIds = {2, 11}
CHECK_DEADLOCK FALSE
