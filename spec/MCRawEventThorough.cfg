SPECIFICATION Spec
CONSTANTS
  LowBits = 5
  UpBits = 3
  Beyond = 256
INVARIANT Exact
CHECK_DEADLOCK FALSE
