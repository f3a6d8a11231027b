SPECIFICATION Spec
CONSTANTS N = 3
 MaxArcs = 4
INVARIANT DetKeeps
INVARIANT ReverseReverses
INVARIANT MinKeeps
INVARIANT MinDeterministic
INVARIANT Gen
CHECK_DEADLOCK FALSE
