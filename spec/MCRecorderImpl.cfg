SPECIFICATION ISpec
CONSTANTS
  MaxCalls = 4
  VIds = {1}
  Sizes = {0, 3}
  MaxBulk = 2
  Around = TRUE
INVARIANTS Decoded Packed
PROPERTIES FailedKeeps
CHECK_DEADLOCK FALSE
