------------------------------- MODULE MCFlush -------------------------------
EXTENDS Naturals, Sequences
VARIABLES hist, inbox, mem, outbuf, got, open
Ans(x) == x
INSTANCE Flush WITH Texts <- {"a", "b", ""}, Answer <- Ans, MaxSent <- 4
=============================================================================
