SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxRows = 4
  MaxChunks = 3
  Batches = {1,2,3,5}
  FV = {0, 1, 2147483647}
  Filters = {"none"}
  Projections = {"i", "x", "ix", "xyi"}
  MaxOpen = 3
  AnyOrder = FALSE
  Faults = FALSE
  Exporting = TRUE
INVARIANTS Sound EndMeansAll FailMeansFault Independent
PROPERTIES Terminates
