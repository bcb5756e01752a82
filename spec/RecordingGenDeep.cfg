SPECIFICATION GSpec
CONSTANTS
  MaxOps = 12
  MaxGuards = 5
  Ths = {1, 2}
  Ticks = FALSE
  Late = FALSE
CHECK_DEADLOCK FALSE
