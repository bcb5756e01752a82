SPECIFICATION GSpec
CONSTANTS
  Lbls = {"a", "b"}
  Steps = {0, 1}
  MaxEv = 3
  MaxNow = 6
  Limit = 2
CHECK_DEADLOCK FALSE
