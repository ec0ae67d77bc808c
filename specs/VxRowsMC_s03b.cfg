SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxChunks = 3
  Lens = {1, 3}
  Exporting = TRUE
INVARIANTS Prefix Whole Needed
