----------------------------- MODULE TraceCompound -----------------------------
(* Trace validation of lt-proc -e.  Scenario as in TraceProc, with flags.tagL,    *)
(* flags.tagR (the control tags) and flags.M.                                     *)
EXTENDS Compound, Dix, Json, IOUtils
Scenarios == ndJsonDeserialize("trace.ndjson")
VARIABLES k, j, p, q, ts, dict, cfg
vars == <<k, j, p, q, ts, dict, cfg>>
Sc == Scenarios[k]
Dbg == "LT_DEBUG" \in DOMAIN IOEnv
DictOf(s) ==
  LET ps == Pars(s.dix, s.opt)
      one(x) == LET R == EntriesRel(x.es, ps, s.opt)
                IN  {IF s.opt.dir = "RL" THEN <<t[2], t[1], t[3], x.type>> ELSE <<t[1], t[2], t[3], x.type>> : t \in R}
  IN  UNION {one(x) : x \in RangeOf(s.dix.sections)}
CfgOf(s) == [letters |-> RangeOf(s.dix.letters), cs |-> s.flags.cs, dictcase |-> s.flags.w, ign |-> RangeOf(s.flags.ign),
             N |-> s.flags.N, L |-> s.flags.L, W |-> s.flags.W,
             rcx |-> {}, tagcps |-> [i \in 1..Len(s.tagcps) |-> IF -i \in {s.flags.tagL, s.flags.tagR} THEN <<>> ELSE s.tagcps[i]],
             tagL |-> s.flags.tagL, tagR |-> s.flags.tagR, M |-> s.flags.M, gaveup |-> RangeOf(s.flags.gaveup)]
TInit == /\ k \in 1..Len(Scenarios)
         /\ j = 1 /\ p = 1 /\ q = 1
         /\ dict = DictOf(Scenarios[k])
         /\ cfg = CfgOf(Scenarios[k])
         /\ ts = LexText(Scenarios[k].chunks[1].in, RangeOf(Scenarios[k].flags.ign))
Unit ==
  /\ j <= Len(Sc.chunks)
  /\ p <= Len(ts)
  /\ \E u \in CompUnitsAt(ts, p, dict, cfg) :
        LET q2 == UnitShown(u, Sc.chunks[j].out, q, cfg)
        IN  /\ (q2 = 0 => (Dbg /\ PrintT(<<"DIFF", j, p, u, "observed from", q, Drop(Sc.chunks[j].out, q - 1)>>) /\ FALSE))
            /\ q' = q2
            /\ p' = p + u.n
  /\ UNCHANGED <<k, j, ts, dict, cfg>>
NextChunk ==
  /\ j <= Len(Sc.chunks)
  /\ p = Len(ts) + 1
  /\ (q # Len(Sc.chunks[j].out) + 1) => (Dbg /\ PrintT(<<"DIFF extra output", j, Drop(Sc.chunks[j].out, q - 1)>>) /\ FALSE)
  /\ j' = j + 1 /\ p' = 1 /\ q' = 1
  /\ ts' = IF j < Len(Sc.chunks) THEN LexText(Sc.chunks[j + 1].in, cfg.ign) ELSE <<>>
  /\ UNCHANGED <<k, dict, cfg>>
TSpec == TInit /\ [][Unit \/ NextChunk]_vars
View == <<k, j, p, q>>
Report == (j > Len(Sc.chunks) /\ Sc.status = "ok") => PrintT(<<"ACCEPT", Sc.id>>)
=============================================================================
