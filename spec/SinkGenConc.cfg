SPECIFICATION GSpec
CONSTANTS
  Threads = {1, 2}
  Streams = {1, 2}
  MaxPage = 16
  MinPage = 8
  MaxOps = 2
  Ops <- ConcOps
CHECK_DEADLOCK FALSE
