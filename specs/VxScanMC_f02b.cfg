SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxRows = 2
  MaxChunks = 2
  Batches = {1,3}
  FV = {0, 1, 2147483647}
  Filters = {"xandy","xory"}
  Projections = {"i"}
  MaxOpen = 3
  AnyOrder = FALSE
  Faults = FALSE
  Exporting = TRUE
INVARIANTS Sound EndMeansAll FailMeansFault Independent
PROPERTIES Terminates
