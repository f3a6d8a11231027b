SPECIFICATION Spec
CONSTANTS MaxPieces = 4
 Gen = TRUE
INVARIANTS TextKept BlanksKept LongestMatch KnownFound Emit
PROPERTY Finishes
CHECK_DEADLOCK FALSE
