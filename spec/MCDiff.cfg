SPECIFICATION Spec
CONSTANTS
  Lbls = {"a", "b"}
  Vals = {0, 1, 3}
INVARIANT Right
CHECK_DEADLOCK FALSE
