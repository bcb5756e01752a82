SPECIFICATION GSpec
CONSTANTS
  MaxN = 4
  MaxOps = 4
  MaxSkip = 1
CHECK_DEADLOCK FALSE
