SPECIFICATION MSpec
CONSTANTS
  W = 3
  MaxOps = 2
  MaxHappen = 4
  Full = FALSE
INVARIANT IsFaithful
INVARIANT Exact
CHECK_DEADLOCK FALSE
