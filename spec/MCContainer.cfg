SPECIFICATION Spec
CONSTANTS
  Lens = {0, 1, 3, 4, 5, 7}
  Vs = {0, 1, 7, 8, 9, 10, 256, 2304}
INVARIANTS Sound OneGood
CHECK_DEADLOCK FALSE
