SPECIFICATION MSpec
CONSTANTS
  MaxOps = 5
  MaxGuards = 3
  Ths = {1, 2}
  Ticks = TRUE
  Late = FALSE
INVARIANTS IsFaithful Ordered Nested Counted Fit
CHECK_DEADLOCK FALSE
