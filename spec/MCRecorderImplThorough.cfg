SPECIFICATION ISpec
CONSTANTS
  MaxCalls = 5
  VIds = {1, 2}
  Sizes = {0, 3}
  MaxBulk = 2
  Around = TRUE
INVARIANTS Decoded Packed
PROPERTIES FailedKeeps
CHECK_DEADLOCK FALSE
