------------------------------ MODULE TraceLib ------------------------------
(* Trace validation of the library interface to lexical transfer and lookup:     *)
(* FSTProcessor::biltrans, biltransWithQueue, biltransWithoutQueue and lookup.   *)
(* Every call of a session on one loaded dictionary is one step.                 *)
EXTENDS Lexical, Dix, Json, IOUtils
Scenarios == ndJsonDeserialize("trace.ndjson")
VARIABLES k, j, dict, cfg
vars == <<k, j, dict, cfg>>
Sc == Scenarios[k]
Dbg == "LT_DEBUG" \in DOMAIN IOEnv
DictOf(s) ==
  LET ps == Pars(s.dix, s.opt)
      one(x) == LET R == EntriesRel(x.es, ps, s.opt)
                IN  {IF s.opt.dir = "RL" THEN <<t[2], t[1], t[3], x.type>> ELSE <<t[1], t[2], t[3], x.type>> : t \in R}
  IN  UNION {one(x) : x \in RangeOf(s.dix.sections)}
CfgOf(s) == [cs |-> s.flags.cs, dictcase |-> s.flags.w, N |-> s.flags.N, L |-> s.flags.L, W |-> s.flags.W, rcx |-> {}, tagcps |-> s.tagcps]
TInit == /\ k \in 1..Len(Scenarios)
         /\ j = 1
         /\ dict = DictOf(Scenarios[k])
         /\ cfg = CfgOf(Scenarios[k])
Case(syms) == [first |-> syms # <<>> /\ IsUpperC(syms[1]), all |-> Len(syms) > 1 /\ IsUpperC(syms[1]) /\ IsUpperC(syms[2])]
FormsOf(m, syms) == Best({<<Form(e[2], DirtySyms(e[1], Take(syms, m)), Case(syms), cfg), e[3]>> : e \in {x \in dict : MatchSyms(x[1], Take(syms, m), cfg)}})
U16Len(s) == FoldLeft(LAMBDA a, c : a + IF c > 65535 THEN 2 ELSE 1, 0, s)
\* the results allowed for one call of the biltrans family: does c.out show one?
BilCall(c) ==
  LET inner == IF c.delim THEN SubSeq(c.in, 2, Len(c.in) - 1) ELSE c.in
      eq == inner[1] = 61
      ps == Pieces(IF eq THEN Tail(inner) ELSE inner, 1)
      syms == Syms(ps, cfg)
      ok == {m \in 1..Len(ps) : FormsOf(m, syms) # {}}
      m == IF ok = {} THEN 0 ELSE MaxOf(ok)
      tags == \E i \in 1..Len(ps) : ps[i].k = "tag"
      none == m = 0 \/ (m < Len(ps) /\ (c.m = "noqueue" \/ (c.m = "queue" /\ ~tags)))
      rest == SourceAfter([ps |-> ps], m)
      head == (IF c.delim THEN <<94>> ELSE <<>>) \o (IF eq THEN <<61>> ELSE <<>>)
      tail == IF c.delim THEN <<36>> ELSE <<>>
  IN  IF inner[1] = 42 THEN c.out = c.in /\ c.n = 0
      ELSE IF none THEN c.out = (IF c.delim THEN <<94, 64>> \o Tail(c.in) ELSE <<64>> \o c.in) /\ c.n = 0
      ELSE /\ StartsAt(c.out, 1, head)
           /\ \E e \in FormEnds(c.out, Len(head) + 1, FormsOf(m, syms), 0, 0, 0, cfg, rest) : Drop(c.out, e - 1) = tail
           /\ c.n = IF c.m = "queue" THEN U16Len(rest) ELSE 0
\* lookup: the readings of the whole word, best first, as one list joined by '/'
LookupCall(c) ==
  LET ps == Pieces(c.in, 1)
      F == FormsOf(Len(ps), Syms(ps, cfg))
  IN  IF F = {} THEN c.out = <<>> /\ c.n = 0
      ELSE c.n = 1 /\ (Len(c.out) + 1) \in FormEnds(c.out, 1, F, 0, 0, 0, cfg, <<>>)
Call == /\ j <= Len(Sc.calls)
        /\ LET c == Sc.calls[j]
           IN  IF (IF c.m = "lookup" THEN LookupCall(c) ELSE BilCall(c)) THEN TRUE ELSE (Dbg /\ PrintT(<<"DIFF", j, c>>) /\ FALSE)
        /\ j' = j + 1
        /\ UNCHANGED <<k, dict, cfg>>
TSpec == TInit /\ [][Call]_vars
View == <<k, j>>
Report == (j > Len(Sc.calls) /\ Sc.status = "ok") => PrintT(<<"ACCEPT", Sc.id>>)
=============================================================================
