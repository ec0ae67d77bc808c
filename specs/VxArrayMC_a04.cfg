INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 3
  Values = {0,1}
  Nulls = TRUE
  SortedOnly = FALSE
  Pre = {"slice"}
  Last = {"take"}
  Depth = 2
  MaxTake = 3
  MaxChunks = 2
  Exporting = TRUE
INVARIANTS Laws
