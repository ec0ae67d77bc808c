INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 5
  Values = {0,1,2}
  Nulls = FALSE
  SortedOnly = TRUE
  Pre = {"slice"}
  Last = {"ss"}
  Depth = 2
  MaxTake = 2
  MaxChunks = 2
  Exporting = TRUE
INVARIANTS Laws
