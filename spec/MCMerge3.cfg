SPECIFICATION Spec
CONSTANTS MaxItems = 3
 Gen = FALSE
INVARIANTS Restores NoneLeft

CHECK_DEADLOCK FALSE
