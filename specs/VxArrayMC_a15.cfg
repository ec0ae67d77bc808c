INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 2
  Values = {0,1}
  Nulls = TRUE
  SortedOnly = FALSE
  Pre = {"slice","take","filter","ipc","chunk","reenc"}
  Last = {"slice","take","filter","canon","sat"}
  Depth = 3
  MaxTake = 2
  MaxChunks = 2
  Exporting = TRUE
INVARIANTS Laws
