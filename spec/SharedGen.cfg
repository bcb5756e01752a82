SPECIFICATION GSpec
CONSTANTS
  Threads = {1, 2, 3}
  Calls = 4
  Whole = TRUE
CHECK_DEADLOCK FALSE
