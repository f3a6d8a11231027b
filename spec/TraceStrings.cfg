SPECIFICATION TSpec
VIEW View
INVARIANT Report
CHECK_DEADLOCK FALSE
