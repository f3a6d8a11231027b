------------------------------ MODULE TraceLex ------------------------------
(* Trace validation of lt-proc in the modes that read lexical units: generation *)
(* and lexical transfer.  Scenario as in TraceProc, with flags.what = "gen" or   *)
(* "bil", flags.mode and flags.surf.                                             *)
EXTENDS Lexical, Dix, Json, IOUtils
Scenarios == ndJsonDeserialize("trace.ndjson")
VARIABLES k, j, p, q, dict, cfg
vars == <<k, j, p, q, dict, cfg>>
Sc == Scenarios[k]
Dbg == "LT_DEBUG" \in DOMAIN IOEnv
DictOf(s) ==
  LET ps == Pars(s.dix, s.opt)
      one(x) == LET R == EntriesRel(x.es, ps, s.opt)
                IN  {IF s.opt.dir = "RL" THEN <<t[2], t[1], t[3], x.type>> ELSE <<t[1], t[2], t[3], x.type>> : t \in R}
  IN  UNION {one(x) : x \in RangeOf(s.dix.sections)}
CfgOf(s) == [cs |-> s.flags.cs, dictcase |-> s.flags.w, N |-> s.flags.N, L |-> s.flags.L, W |-> s.flags.W, rcx |-> {}, tagcps |-> s.tagcps,
             mode |-> s.flags.mode, surf |-> s.flags.surf]
TInit == /\ k \in 1..Len(Scenarios)
         /\ j = 1 /\ p = 1 /\ q = 1
         /\ dict = DictOf(Scenarios[k])
         /\ cfg = CfgOf(Scenarios[k])
In == Sc.chunks[j].in
Out == Sc.chunks[j].out
Blank == /\ j <= Len(Sc.chunks)
         /\ p <= Len(In) /\ In[p] # 94
         /\ LET e == BlankPiece(In, p)
            IN  /\ StartsAt(Out, q, SubSeq(In, p, e)) \/ (Dbg /\ PrintT(<<"DIFF blank", j, SubSeq(In, p, e), "observed from", q, Drop(Out, q - 1)>>) /\ FALSE)
                /\ p' = e + 1
                /\ q' = q + e - p + 1
         /\ UNCHANGED <<k, j, dict, cfg>>
Unit == /\ j <= Len(Sc.chunks)
        /\ p <= Len(In) /\ In[p] = 94
        /\ LET u == LexUnit(In, p)
               es == IF Sc.flags.what = "gen" THEN GenEnds(u, Out, q, dict, cfg) ELSE BilEnds(u, Out, q, dict, cfg)
           IN  /\ (es = {}) => (Dbg /\ PrintT(<<"DIFF unit", j, SubSeq(In, p, u.next - 1), "forms", IF Sc.flags.what = "gen" THEN GenForms(u.rs[1].ps, dict, cfg) ELSE BilMatch(u.rs[IF cfg.surf = "no" THEN 1 ELSE 2], dict, cfg), "observed from", q, Drop(Out, q - 1)>>) /\ FALSE)
               /\ q' \in es
               /\ p' = u.next
        /\ UNCHANGED <<k, j, dict, cfg>>
NextChunk == /\ j <= Len(Sc.chunks)
             /\ p > Len(In)
             /\ (q # Len(Out) + 1) => (Dbg /\ PrintT(<<"DIFF extra output", j, Drop(Out, q - 1)>>) /\ FALSE)
             /\ j' = j + 1 /\ p' = 1 /\ q' = 1
             /\ UNCHANGED <<k, dict, cfg>>
TSpec == TInit /\ [][Blank \/ Unit \/ NextChunk]_vars
View == <<k, j, p, q>>
Report == (j > Len(Sc.chunks) /\ Sc.status = "ok") => PrintT(<<"ACCEPT", Sc.id>>)
=============================================================================
