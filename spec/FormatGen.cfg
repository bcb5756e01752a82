SPECIFICATION GSpec
CONSTANTS
  MaxStrings = 2
  MaxParts = 2
  MaxEvents = 1
CHECK_DEADLOCK FALSE
