SPECIFICATION Spec
CONSTANTS MaxPieces = 4
 Gen = TRUE
INVARIANTS BlanksKept BoundKept Emit
PROPERTIES Finishes Shrinks
CHECK_DEADLOCK FALSE
