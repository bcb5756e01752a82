SPECIFICATION GSpec
CONSTANTS
  LowBits = 3
  UpBits = 2
  Beyond = 32
CHECK_DEADLOCK FALSE
