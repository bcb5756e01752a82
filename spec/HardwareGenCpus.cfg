SPECIFICATION GSpec
CONSTANTS
  W = 3
  MaxOps = 1
  MaxHappen = 1
  Full = TRUE
CHECK_DEADLOCK FALSE
