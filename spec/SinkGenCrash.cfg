SPECIFICATION GSpec
CONSTANTS
  Threads = {1}
  Streams = {1, 2}
  MaxPage = 16
  MinPage = 8
  MaxOps = 8
  Ops <- EvGenOps
CHECK_DEADLOCK FALSE
