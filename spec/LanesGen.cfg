SPECIFICATION GSpec
CONSTANTS
  Ths = {1, 2, 3}
  Last = 4
CHECK_DEADLOCK FALSE
