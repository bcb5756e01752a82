SPECIFICATION GSpecAll
CONSTANTS
  Ths = {0}
  Kinds = {"Query", "IncrementalResultHashing", "Other"}
  Lbls = {"a"}
  Marks = {"hit", "size"}
  Steps = {1}
  MaxEv = 2
  MaxNow = 10
CHECK_DEADLOCK FALSE
