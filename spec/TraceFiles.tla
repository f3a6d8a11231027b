----------------------------- MODULE TraceFiles -----------------------------
(* Histories of files that were written, cut short and built with the real tools, *)
(* step by step against Files.                                                     *)
EXTENDS Files, Json, IOUtils, TLC
Scenarios == ndJsonDeserialize("trace.ndjson")
VARIABLES k, j, store, whole
Sc == Scenarios[k]
Dbg == "LT_DEBUG" \in DOMAIN IOEnv
TInit == k \in 1..Len(Scenarios) /\ j = 1 /\ store = [f \in {} |-> None] /\ whole = {}
Grown(st, fs) == [f \in DOMAIN st \cup fs |-> IF f \in DOMAIN st THEN st[f] ELSE None]
Step == /\ j <= Len(Sc.ops)
        /\ LET o == Sc.ops[j] IN
           IF o.op = "put"
           THEN LET s == PutStep(Grown(store, {o.file}), whole, o.file, o.content, o.valid)
                IN  store' = s.store /\ whole' = s.whole
           ELSE LET st == Grown(store, {o.ins[i] : i \in 1..Len(o.ins)} \cup {o.out})
                    s == RunStep(st, whole, o.ins, o.out, o.res, o.content)
                IN  /\ IF RunAllowed(st, whole, o.ins, o.out, o, o.res, o.content) THEN TRUE
                       ELSE Dbg /\ PrintT(<<"DIFF", j, "inputs whole", WholeIn(st, whole, o.ins), "observed", o>>) /\ FALSE
                    /\ store' = s.store /\ whole' = s.whole
        /\ j' = j + 1 /\ UNCHANGED k
Done == j > Len(Sc.ops)
TSpec == TInit /\ [][Step]_<<k, j, store, whole>>
View == <<k, j>>
Report == Done => PrintT(<<"ACCEPT", Sc.id>>)
=============================================================================
