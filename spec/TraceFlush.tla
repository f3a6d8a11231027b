------------------------------ MODULE TraceFlush ------------------------------
(* Sessions recorded from the real tools, checked against Flush.  The events of a *)
(* session are what the client saw: send, got (an answer, up to its null), close, *)
(* end (what came after the last answer, and how the tool ended).  Answers of the *)
(* tool in its initial state are recorded from runs on one text each.             *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Scenarios == ndJsonDeserialize("trace.ndjson")
VARIABLES k, i, hist, inbox, mem, outbuf, got, open, ended
vars == <<k, i, hist, inbox, mem, outbuf, got, open, ended>>
Sc == Scenarios[k]
Dbg == "LT_DEBUG" \in DOMAIN IOEnv
Ans(x) == IF x[1] = <<>> THEN Scenarios[x[2][1]].alone[x[2][2]] ELSE <<>>      \* a text is <<scenario, number>>
F == INSTANCE Flush WITH Texts <- {}, Answer <- Ans, MaxSent <- 1000000
TInit == /\ k \in 1..Len(Scenarios) /\ i = 1 /\ ended = FALSE /\ F!Init
Ev == Sc.events[i]
Step == i' = i + 1 /\ UNCHANGED <<k, ended>>
Bad(x) == Dbg /\ PrintT(<<"DIFF", i, x>>) /\ FALSE
TSend == /\ i <= Len(Sc.events) /\ Ev.e = "send" /\ F!Send(<<k, Ev.t>>) /\ Step
Hidden == (F!Process \/ F!Deliver) /\ UNCHANGED <<k, i, ended>>
TGot == /\ i <= Len(Sc.events) /\ Ev.e = "got" /\ inbox = <<>> /\ outbuf = <<>>
        /\ Len(got) = Len(hist)
        /\ Ev.out = got[Len(got)] \/ Bad(<<"expected", got[Len(got)], "observed", Ev.out>>)
        /\ Step /\ UNCHANGED <<hist, inbox, mem, outbuf, got, open>>
TClose == /\ i <= Len(Sc.events) /\ Ev.e = "close" /\ F!Close /\ Step
\* a text without a null before the end of the input is answered as well
TLast == /\ i <= Len(Sc.events) /\ Ev.e = "last" /\ open
         /\ Ev.out \in {Sc.alone[Ev.t], Sc.alone[Ev.t] \o <<0>>} \/ Bad(<<"expected", Sc.alone[Ev.t], "observed", Ev.out>>)
         /\ Step /\ UNCHANGED <<hist, inbox, mem, outbuf, got, open>>
TEnd == /\ i <= Len(Sc.events) /\ Ev.e = "end" /\ ~open /\ inbox = <<>> /\ outbuf = <<>>
        /\ Ev.rc = 0 /\ Ev.out \in {<<>>, <<0>>}
        /\ i' = i + 1 /\ ended' = TRUE /\ UNCHANGED <<k, hist, inbox, mem, outbuf, got, open>>
TSpec == TInit /\ [][TSend \/ Hidden \/ TGot \/ TClose \/ TLast \/ TEnd]_vars
View == <<k, i, Len(inbox), Len(outbuf), Len(got), ended>>
Report == (i > Len(Sc.events) /\ ended) => PrintT(<<"ACCEPT", Sc.id>>)
=============================================================================
