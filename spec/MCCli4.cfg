CONSTANT Most = 4
SPECIFICATION Spec
INVARIANTS FilesKept NoOptionIsAFile PlainMeansTheSame
PROPERTY Ends
CHECK_DEADLOCK FALSE
