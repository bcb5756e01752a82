SPECIFICATION ISpec
CONSTANTS
  MaxN = 6
  MaxOps = 7
  MaxSkip = 2
INVARIANTS OnceEach InOrder Exact
CHECK_DEADLOCK FALSE
