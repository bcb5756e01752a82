SPECIFICATION MCSpec
CONSTANTS
  Streams = {1, 2}
  Slack = 2
  MaxCalls = 3
  Sizes = {1, 2}
INVARIANTS Tiling DiskOk MissingOk FlushedOk ClosedOk ErrorsReported
PROPERTIES RealTime Durable
CHECK_DEADLOCK FALSE
