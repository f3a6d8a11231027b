CONSTANT Most = 3
SPECIFICATION Spec
INVARIANTS FilesKept NoOptionIsAFile PlainMeansTheSame Gen
PROPERTY Ends
CHECK_DEADLOCK FALSE
