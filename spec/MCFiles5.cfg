CONSTANTS Names = {1, 2, 3}
Depth = 5
SPECIFICATION Spec
INVARIANTS Delivered WholeIsSound NeverLocked
CHECK_DEADLOCK FALSE
