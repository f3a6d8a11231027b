SPECIFICATION Spec
INVARIANTS Answers NoExtra
PROPERTY Answered
CHECK_DEADLOCK FALSE
