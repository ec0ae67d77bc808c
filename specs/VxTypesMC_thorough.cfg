INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Prims = {"u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "f16", "f32", "f64"}
  Names = {"a", "b"}
  MaxWidth = 2
  MaxDepth = 1
  Picks = {"lo", "hi", "zero"}
  Exts <- QExts
INVARIANTS NullLaw ValuesTyped ProjectLaw
