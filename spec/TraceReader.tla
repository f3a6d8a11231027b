---------------------------- MODULE TraceReader ----------------------------
(* What StreamReader::next found, step by step, against Reader.               *)
EXTENDS Reader, Json, IOUtils
Scenarios == ndJsonDeserialize("trace.ndjson")
VARIABLES k, j, i
Sc == Scenarios[k]
Dbg == "LT_DEBUG" \in DOMAIN IOEnv
TInit == k \in 1..Len(Scenarios) /\ j = 1 /\ i = 1
Known(t) == t[1] = "chr" \/ Sc.add \/ t[2] \in RangeOf(Sc.tags)
Sym(t) == IF Known(t) THEN t[2] ELSE <<>>        \* a tag the alphabet does not have
Shown(n) == [blank |-> n.blank, wblank |-> n.wblank, chunk |-> n.chunk, null |-> n.null, eof |-> n.eof,
             readings |-> [q \in 1..Len(n.readings) |->
                [n.readings[q] EXCEPT !.symbols = IF Sc.alpha THEN MapSeq(@, Sym) ELSE <<>>]]]
Step == /\ j <= Len(Sc.steps)
        /\ LET n == ReadNext(Sc.input, i, <<>>)
           IN  /\ IF Shown(n) = Sc.steps[j] THEN TRUE
                  ELSE Dbg /\ PrintT(<<"DIFF", j, "expected", Shown(n), "observed", Sc.steps[j]>>) /\ FALSE
               /\ i' = n.next
               /\ j' = j + 1
        /\ UNCHANGED k
\* the last step, and only that one, is at the end of the input
Done == j > Len(Sc.steps) /\ Sc.status = "ok" /\ Len(Sc.steps) > 0 /\ Sc.steps[Len(Sc.steps)].eof
        /\ \A q \in 1..(Len(Sc.steps) - 1) : ~Sc.steps[q].eof
TSpec == TInit /\ [][Step]_<<k, j, i>>
View == <<k, j>>
Report == Done => PrintT(<<"ACCEPT", Sc.id>>)
=============================================================================
