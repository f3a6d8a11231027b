--------------------------- MODULE TraceTranslit ---------------------------
(* Trace validation of lt-proc -p, -t and -x.                                  *)
EXTENDS Translit, Json, IOUtils
Scenarios == ndJsonDeserialize("trace.ndjson")
VARIABLES k, j, q, ws, g, tail, rules
vars == <<k, j, q, ws, g, tail, rules>>
Sc == Scenarios[k]
Dbg == "LT_DEBUG" \in DOMAIN IOEnv
None == [lead |-> <<>>, wb |-> <<>>, x |-> <<>>, bl |-> <<>>, sd |-> 0, s |-> -1]

\* rules of a dictionary without paradigms: parts of an entry are aligned letter by letter
Marker(c) == CASE c = 2000001 -> 32 [] c = 2000002 -> 43 [] c = 2000003 -> 126 [] c = 2000005 -> 35 [] OTHER -> c
ZipLR(l, r) == [i \in 1..(IF Len(l) > Len(r) THEN Len(l) ELSE Len(r)) |->
                <<IF i <= Len(l) THEN Marker(l[i]) ELSE 0, IF i <= Len(r) THEN Marker(r[i]) ELSE 0>>]
Aligned(els) == Flat([i \in 1..Len(els) |-> IF els[i].t = "p" THEN ZipLR(els[i].l, els[i].r) ELSE ZipLR(els[i].l, els[i].l)])
Swap(p, dir) == IF dir = "LR" THEN p ELSE [i \in 1..Len(p) |-> <<p[i][2], p[i][1]>>]
RulesOf(s) == {[p |-> Swap(Aligned(e.els), s.opt.dir), w |-> e.w] : e \in
                 {x \in UNION {RangeOf(sec.es) : sec \in RangeOf(s.dix.sections)} : ~x.ignore /\ x.r \in {"", s.opt.dir}}}
Start(s, jj) == IF jj > Len(s.chunks) THEN [ws |-> <<>>, tail |-> <<>>] ELSE Words(s.chunks[jj].in, 1)
TInit == /\ k \in 1..Len(Scenarios)
         /\ j = 1 /\ q = 1 /\ g = None
         /\ rules = RulesOf(Scenarios[k])
         /\ LET t == Start(Scenarios[k], 1) IN ws = t.ws /\ tail = t.tail
Out == Sc.chunks[j].out
Begin == /\ g = None /\ ws # <<>>
         /\ g' = Group(ws[1]) /\ ws' = Tail(ws)
         /\ UNCHANGED <<k, j, q, tail, rules>>
Step == /\ g # None /\ g.s < Len(g.x)
        /\ IF MatchesAt(g, ws, rules, Sc.flags.cs) = {}
           THEN g' = [g EXCEPT !.s = g.s + 1] /\ ws' = ws
           ELSE \E z \in Rewrites(g, ws, rules, Sc.flags.cs, RangeOf(Sc.dix.letters)) : g' = z.g /\ ws' = Drop(ws, z.n)
        /\ UNCHANGED <<k, j, q, tail, rules>>
Flush == /\ g # None /\ g.s >= Len(g.x)
         /\ LET t == Written(g, Sc.flags.tilde)
            IN  /\ StartsAt(Out, q, t) \/ (Dbg /\ PrintT(<<"DIFF", j, "expected", t, "observed from", q, Drop(Out, q - 1)>>) /\ FALSE)
                /\ q' = q + Len(t)
         /\ g' = None
         /\ UNCHANGED <<k, j, ws, tail, rules>>
NextChunk == /\ g = None /\ ws = <<>> /\ j <= Len(Sc.chunks)
             /\ Drop(Out, q - 1) = tail \/ (Dbg /\ PrintT(<<"DIFF end", j, tail, "observed", Drop(Out, q - 1)>>) /\ FALSE)
             /\ j' = j + 1 /\ q' = 1 /\ g' = None
             /\ LET t == Start(Sc, j + 1) IN ws' = t.ws /\ tail' = t.tail
             /\ UNCHANGED <<k, rules>>
TSpec == TInit /\ [][Begin \/ Step \/ Flush \/ NextChunk]_vars
View == <<k, j, q, Len(ws), g>>
Report == (j > Len(Sc.chunks) /\ Sc.status = "ok") => PrintT(<<"ACCEPT", Sc.id>>)
=============================================================================
