---------------------------- MODULE TracePatterns ----------------------------
(* Trace validation of pattern lists: the insertions are steps of the            *)
(* specification's state; then every classified word must get its class.         *)
EXTENDS Patterns, Json, IOUtils
Scenarios == ndJsonDeserialize("trace.ndjson")
VARIABLES k, j, s
Sc == Scenarios[k]
Dbg == "LT_DEBUG" \in DOMAIN IOEnv
TInit == k \in 1..Len(Scenarios) /\ j = 1 /\ s = Empty
Step == /\ j <= Len(Sc.ops)
        /\ LET o == Sc.ops[j]
           IN  IF o.op = "word"
               THEN LET e == Classify(s.store, RangeOf(o.banned), o.word)
                    IN  /\ IF o.out = e THEN TRUE ELSE (Dbg /\ PrintT(<<"DIFF", j, o, "expected", e>>) /\ FALSE)
                        /\ UNCHANGED s
               ELSE s' = Apply(s, o)
        /\ j' = j + 1
        /\ UNCHANGED k
TSpec == TInit /\ [][Step]_<<k, j, s>>
View == <<k, j>>
Report == (j > Len(Sc.ops) /\ Sc.status = "ok") => PrintT(<<"ACCEPT", Sc.id>>)
=============================================================================
