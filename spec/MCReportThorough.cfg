SPECIFICATION Spec
CONSTANTS
  Lbls = {"a", "b", "c", "d"}
  Selfs = {0, 1}
  Totals = {3, 4}
  Percents = {0, 25000}
INVARIANT Right
CHECK_DEADLOCK FALSE
