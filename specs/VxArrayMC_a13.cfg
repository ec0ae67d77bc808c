INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 3
  Values = {0,1}
  Nulls = TRUE
  SortedOnly = FALSE
  Pre = {"slice","take","filter","chunk","canon"}
  Last = {"arrow"}
  Depth = 2
  MaxTake = 2
  MaxChunks = 2
  Exporting = TRUE
INVARIANTS Laws
