SPECIFICATION ISpec
CONSTANTS
  MaxEntries = 3
  MaxComps = 2
  MaxMaps = 1
  Lens = {0, 3}
  VIds = {2, 11}
INVARIANTS NeverMisread StillRead
VIEW View
CHECK_DEADLOCK FALSE
