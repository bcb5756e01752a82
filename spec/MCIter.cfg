SPECIFICATION ISpec
CONSTANTS
  MaxN = 4
  MaxOps = 5
  MaxSkip = 2
INVARIANTS OnceEach InOrder Exact
CHECK_DEADLOCK FALSE
