SPECIFICATION GSpec
CONSTANTS
  Ths = {0, 1, 2}
  Kinds = {"Query", "QueryBlocked", "IncrementalLoadResult", "IncrementalResultHashing", "QueryCacheHit"}
  Lbls = {"a", "b"}
  Marks = {"hit", "size", "noise", "odd"}
  Steps = {0, 1, 3}
  MaxEv = 14
  MaxNow = 60
CHECK_DEADLOCK FALSE
