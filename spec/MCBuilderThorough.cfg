SPECIFICATION MSpec
CONSTANTS
  MaxCalls = 8
  Emitting = FALSE
INVARIANTS OnceEach Around InOrder
CHECK_DEADLOCK FALSE
