SPECIFICATION Spec
CONSTANTS
  Ths = {1, 2, 3, 4, 5}
  Last = 3
INVARIANT Right
INVARIANT Mapped
CHECK_DEADLOCK FALSE
