SPECIFICATION GSpec
CONSTANTS
  MaxLen = 3
  MaxArgs = 1
CHECK_DEADLOCK FALSE
