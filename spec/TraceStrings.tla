---------------------------- MODULE TraceStrings ----------------------------
(* Every recorded call of a string function returned what Strings says.       *)
EXTENDS Strings, Json, IOUtils
Scenarios == ndJsonDeserialize("trace.ndjson")
VARIABLES k, j
Sc == Scenarios[k]
Dbg == "LT_DEBUG" \in DOMAIN IOEnv
TInit == k \in 1..Len(Scenarios) /\ j = 1
Step == /\ j <= Len(Sc.ops)
        /\ IF Sc.ops[j].out = Result(Sc.ops[j]) THEN TRUE
           ELSE Dbg /\ PrintT(<<"DIFF", j, Sc.ops[j], "expected", Result(Sc.ops[j])>>) /\ FALSE
        /\ j' = j + 1 /\ UNCHANGED k
TSpec == TInit /\ [][Step]_<<k, j>>
View == <<k, j>>
Report == (j > Len(Sc.ops) /\ Sc.status = "ok") => PrintT(<<"ACCEPT", Sc.id>>)
=============================================================================
