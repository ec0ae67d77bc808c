SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxRows = 2
  MaxChunks = 2
  Batches = {1,3}
  FV = {0, 1, 2147483647}
  Filters = {"none","x"}
  Projections = {"i", "xi"}
  MaxOpen = 3
  AnyOrder = TRUE
  Faults = TRUE
  Exporting = TRUE
INVARIANTS Sound EndMeansAll FailMeansFault Independent
PROPERTIES Terminates
