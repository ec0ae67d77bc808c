SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxChunks = 4
  Lens = {0, 1, 2}
  Exporting = TRUE
INVARIANTS Prefix Whole Needed
