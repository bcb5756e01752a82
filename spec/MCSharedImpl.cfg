SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Calls = 2
  Whole = TRUE
INVARIANTS OnceEach InOrder Latest AsOne OwnString
CHECK_DEADLOCK FALSE
