------------------------------ MODULE TraceMerge -----------------------------
(* Trace validation of lt-merge and lt-merge -u (flags.u)                       *)
EXTENDS Merge, Json, IOUtils
Scenarios == ndJsonDeserialize("trace.ndjson")
VARIABLES k, j, p, q, st
vars == <<k, j, p, q, st>>
Sc == Scenarios[k]
Dbg == "LT_DEBUG" \in DOMAIN IOEnv
Off == [on |-> FALSE, surf |-> <<>>]
TInit == k \in 1..Len(Scenarios) /\ j = 1 /\ p = 1 /\ q = 1 /\ st = Off
In == Sc.chunks[j].in
Out == Sc.chunks[j].out
Item == /\ j <= Len(Sc.chunks)
        /\ p <= Len(In) + 1
        /\ LET it == ItemAt(In, p)
               r == IF Sc.flags.u THEN [on |-> FALSE, surf |-> <<>>, out |-> UnmergeOut(it)] ELSE MergeStep(st, it)
           IN  /\ StartsAt(Out, q, r.out) \/ (Dbg /\ PrintT(<<"DIFF", j, "expected", r.out, "observed from", q, Drop(Out, q - 1)>>) /\ FALSE)
               /\ q' = q + Len(r.out)
               /\ p' = it.next
               /\ st' = [on |-> r.on, surf |-> r.surf]
        /\ UNCHANGED <<k, j>>
NextChunk == /\ j <= Len(Sc.chunks)
             /\ p = Len(In) + 2
             /\ (q # Len(Out) + 1) => (Dbg /\ PrintT(<<"DIFF extra output", j, Drop(Out, q - 1)>>) /\ FALSE)
             /\ j' = j + 1 /\ p' = 1 /\ q' = 1 /\ st' = Off
             /\ k' = k
TSpec == TInit /\ [][Item \/ NextChunk]_vars
View == <<k, j, p, q>>
Report == (j > Len(Sc.chunks) /\ Sc.status = "ok") => PrintT(<<"ACCEPT", Sc.id>>)
=============================================================================
