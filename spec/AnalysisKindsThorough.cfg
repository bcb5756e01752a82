SPECIFICATION Spec
CONSTANTS
  Ths = {0}
  Kinds = {"Query", "QueryBlocked", "IncrementalLoadResult", "IncrementalResultHashing", "QueryCacheHit"}
  Lbls = {"a", "b"}
  Marks = {"hit", "size", "noise", "odd"}
  Steps = {1}
  MaxEv = 4
  MaxNow = 10
CHECK_DEADLOCK FALSE
INVARIANT Nested
INVARIANT StackIsChain
INVARIANT SummaryRight
INVARIANT StacksRight
INVARIANT Conserved
INVARIANT ThreadOnly
