INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 4
  Values = {0,1}
  Nulls = TRUE
  SortedOnly = FALSE
  Pre = {}
  Last = {"canon","ipc","compress","reenc"}
  Depth = 1
  MaxTake = 2
  MaxChunks = 2
  Exporting = TRUE
INVARIANTS Laws
