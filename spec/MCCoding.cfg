SPECIFICATION Spec
CONSTANT MaxItems = 2
INVARIANT RoundTrip
INVARIANT InStep
CHECK_DEADLOCK FALSE
