SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxChunks = 4
  Lens = {0, 1, 3}
  Exporting = TRUE
INVARIANTS Prefix Whole Needed
