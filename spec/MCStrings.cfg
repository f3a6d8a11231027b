SPECIFICATION MSpec
CONSTANTS
  Letters = {97, 65, 32, 47, 223, 454}
  MaxLen = 4
INVARIANTS Pieces Trimmed Cased Edges
CHECK_DEADLOCK FALSE
