SPECIFICATION ISpec
CONSTANTS
  Threads = {1, 2}
  Streams = {1, 2}
  MaxPage = 4
  MinPage = 3
  MaxOps = 2
  Ops <- EvOps
INVARIANTS PagesOk LocksOk Closed WholeRecords
PROPERTIES Refines Returns
CHECK_DEADLOCK TRUE
