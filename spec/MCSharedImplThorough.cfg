SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Calls = 3
  Whole = TRUE
  Ops <- FewOps
INVARIANTS OnceEach InOrder Latest AsOne OwnString
CHECK_DEADLOCK FALSE
