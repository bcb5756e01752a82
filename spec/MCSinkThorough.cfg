SPECIFICATION MCSpec
CONSTANTS
  Streams = {1}
  Slack = 2
  MaxCalls = 5
  Sizes = {1, 2}
INVARIANTS Tiling DiskOk MissingOk FlushedOk ClosedOk ErrorsReported
PROPERTIES RealTime Durable
CHECK_DEADLOCK FALSE
