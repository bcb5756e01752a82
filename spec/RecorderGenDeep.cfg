SPECIFICATION GSpec
CONSTANTS
  MaxCalls = 14
  VIds = {1, 2}
  Sizes = {0, 3, 9}
  MaxBulk = 2
  Around = TRUE
CHECK_DEADLOCK FALSE
