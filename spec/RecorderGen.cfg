SPECIFICATION GSpec
CONSTANTS
  MaxCalls = 3
  VIds = {1}
  Sizes = {3}
  MaxBulk = 2
  Around = TRUE
CHECK_DEADLOCK FALSE
