SPECIFICATION GSpec
CONSTANTS
  MaxPages = 5
CHECK_DEADLOCK FALSE
