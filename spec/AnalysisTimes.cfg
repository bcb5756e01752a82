SPECIFICATION Spec
CONSTANTS
  Ths = {0, 1}
  Kinds = {"Query"}
  Lbls = {"a", "b"}
  Marks = {}
  Steps = {0, 1}
  MaxEv = 3
  MaxNow = 4
CHECK_DEADLOCK FALSE
INVARIANT Nested
INVARIANT StackIsChain
INVARIANT SummaryRight
INVARIANT StacksRight
INVARIANT Conserved
INVARIANT ThreadOnly
