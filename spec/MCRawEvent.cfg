SPECIFICATION Spec
CONSTANTS
  LowBits = 4
  UpBits = 3
  Beyond = 128
INVARIANT Exact
CHECK_DEADLOCK FALSE
