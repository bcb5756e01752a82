SPECIFICATION GSpec
CONSTANTS
  MaxOps = 4
  MaxGuards = 3
  Ths = {1, 2}
  Ticks = FALSE
  Late = FALSE
CHECK_DEADLOCK FALSE
