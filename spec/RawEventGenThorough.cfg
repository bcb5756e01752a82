SPECIFICATION GSpec
CONSTANTS
  LowBits = 4
  UpBits = 2
  Beyond = 64
CHECK_DEADLOCK FALSE
