SPECIFICATION GSpec
CONSTANTS
  MaxLen = 5
  Alphabet = {97, 233, 32, 11, 30, 0, 127}
CHECK_DEADLOCK FALSE
