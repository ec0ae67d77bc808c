SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxRows = 3
  MaxChunks = 2
  Batches = {1,2,4}
  FV = {0, 1, 2147483647}
  Filters = {"x"}
  Projections = {"i", "xi", "x"}
  MaxOpen = 3
  AnyOrder = FALSE
  Faults = FALSE
  Exporting = TRUE
INVARIANTS Sound EndMeansAll FailMeansFault Independent
PROPERTIES Terminates
