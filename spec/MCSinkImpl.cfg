SPECIFICATION ISpec
CONSTANTS
  Threads = {1, 2}
  Streams = {1, 2}
  MaxPage = 4
  MinPage = 2
  MaxOps = 1
  Ops <- MCOps
INVARIANTS PagesOk LocksOk Closed
PROPERTIES Refines Returns
CHECK_DEADLOCK TRUE
