SPECIFICATION Spec
CONSTANTS
  Lbls = {"a", "b", "c"}
  Selfs = {0, 1, 2}
  Totals = {3, 4}
  Percents = {0, 25000, 33333, 33334, 50000}
INVARIANT Right
CHECK_DEADLOCK FALSE
