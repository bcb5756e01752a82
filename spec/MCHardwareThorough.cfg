SPECIFICATION MSpec
CONSTANTS
  W = 4
  MaxOps = 2
  MaxHappen = 9
  Full = FALSE
INVARIANT IsFaithful
INVARIANT Exact
CHECK_DEADLOCK FALSE
