SPECIFICATION GSpec
CONSTANTS
  Threads = {1}
  Streams = {1}
  MaxPage = 16
  MinPage = 8
  MaxOps = 3
  Ops <- SeqOps
CHECK_DEADLOCK FALSE
