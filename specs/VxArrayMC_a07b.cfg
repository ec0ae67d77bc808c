INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 2
  Values = {0,1}
  Nulls = TRUE
  SortedOnly = FALSE
  Pre = {}
  Last = {"cmp"}
  Depth = 1
  MaxTake = 2
  MaxChunks = 2
  Exporting = TRUE
INVARIANTS Laws
