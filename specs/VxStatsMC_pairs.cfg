INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxParts = 2
  MaxLen = 2
  Values = {0, 1}
  Drops = 1
  Exporting = TRUE
INVARIANTS Sound Grouping
