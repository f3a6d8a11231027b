SPECIFICATION Spec
CONSTANT MaxItems = 3
INVARIANT RoundTrip
INVARIANT InStep
CHECK_DEADLOCK FALSE
