SPECIFICATION MSpec
CONSTANTS
  MaxCalls = 7
  Emitting = FALSE
INVARIANTS OnceEach Around InOrder
CHECK_DEADLOCK FALSE
