SPECIFICATION Spec
CONSTANTS MaxItems = 2
 Gen = TRUE
INVARIANTS Restores NoneLeft Emit
PROPERTIES Finishes Clean
CHECK_DEADLOCK FALSE
