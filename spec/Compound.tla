------------------------------- MODULE Compound -------------------------------
(* Analysis with decomposition (lt-proc -e).  Entries that carry the tag tagL    *)
(* only ever begin a compound; the last part of a compound carries tagR.  Words  *)
(* that have no analysis of their own are cut into as few parts as possible      *)
(* (at most cfg.M joints); the readings of the parts are joined by '+'.          *)
EXTENDS Analysis
Has(out, t) == \E i \in 1..Len(out) : out[i] = t
LastPart(out) == LET S == {i \in 1..Len(out) : out[i] = 43} IN Drop(out, IF S = {} THEN 0 ELSE MaxOf(S))
Joints(out) == Cardinality({i \in 1..Len(out) : out[i] = 43})
WordDict(dict, cfg) == {e \in dict : ~Has(e[2], cfg.tagL)}
\* decompositions of the characters w from position b: set of [out, w, dirty]
RECURSIVE CompFrom(_, _, _, _, _)
CompFrom(w, b, left, dict, cfg) ==
  LET n == Len(w) - b
      fits(e) == Len(e[1]) > 0 /\ Len(e[1]) <= n /\ \A i \in 1..Len(e[1]) : SameC(w[b + i], e[1][i], cfg)
      dirty(e) == \E i \in 1..Len(e[1]) : e[1][i] # w[b + i]
      F == {e \in dict : fits(e)}
  IN  {[out |-> e[2], w |-> e[3], dirty |-> dirty(e)] : e \in {x \in F : Len(x[1]) = n /\ Has(LastPart(x[2]), cfg.tagR)}}
      \cup (IF left = 0 THEN {}
            ELSE UNION {{[out |-> e[2] \o <<43>> \o r.out, w |-> e[3] + r.w, dirty |-> dirty(e) \/ r.dirty]
                          : r \in CompFrom(w, b + Len(e[1]), left - 1, dict, cfg)}
                        : e \in {x \in F : Len(x[1]) < n /\ Has(LastPart(x[2]), cfg.tagL)}})
Compounds(w, dict, cfg) ==
  LET C == {x \in CompFrom(w, 0, cfg.M, dict, cfg) : Joints(x.out) <= cfg.M}
      least == MinOf({Joints(x.out) : x \in C})
  IN  IF C = {} THEN {} ELSE {x \in C : Joints(x.out) = least}
CompForms(w, dict, cfg) == LET case == CaseOf(w, cfg)
                           IN  Best({<<Form(x.out, x.dirty, case, cfg), x.w>> : x \in Compounds(w, dict, cfg)})
\* ---- compounds whose parts contain blanks ---------------------------------------------
\* the stretch that a compound beginning at p would cover when no entry matches further than K: [n, must]
SpanAt(ts, p, dict, cfg) ==
  LET b == p - 1
      ml == [e \in dict |-> MatchLen(e[1], 0, ts, b, cfg)]
      K == IF dict = {} THEN 0 ELSE MaxOf({ml[e] : e \in dict})
      m == LET u == UnitAt(ts, p, WordDict(dict, cfg), cfg) IN IF u.kind = "word" THEN u.n ELSE 0
      starts == \E e \in dict : /\ e[4] = "standard" /\ Has(e[2], cfg.tagL) /\ ml[e] = Len(e[1]) /\ Len(e[1]) > 0
                                /\ Alphabetic(Tok(ts, p + Len(e[1])), cfg)
      blanks == {i \in 1..K : ~Alphabetic(ts[b + i][1], cfg)}
      e == AlphaEnd(ts, p + K, cfg)
  IN  IF ~starts \/ K = 0 \/ ~Alphabetic(Tok(ts, p + K), cfg) THEN [n |-> 0, must |-> FALSE]
      ELSE [n |-> e - b, must |-> blanks # {} /\ m < MaxOf(blanks) /\ \A x \in dict : ml[x] = Len(x[1]) => x[4] = "standard"]
\* the units that may begin at p
CompUnitsAt(ts, p, dict, cfg) ==
  LET u == UnitAt(ts, p, WordDict(dict, cfg), cfg)
      cf == IF u.kind = "unknown" THEN CompForms(u.sf, dict, cfg) ELSE {}
      comp(x) == IF x # {} THEN [u EXCEPT !.kind = "word", !.forms = x] ELSE u
      \* a word with too many combinations may be given up, or only be decomposed as written in lower case
      plains == IF u.kind = "unknown" /\ u.sf \in cfg.gaveup THEN {u, comp(cf), comp(CompForms(LowerSeq(u.sf), dict, cfg))} ELSE {comp(cf)}
      s == SpanAt(ts, p, dict, cfg)
      us == SubSeq(ts, p, p - 1 + s.n)
      sf == IF s.n = 0 THEN <<>> ELSE CompForms(Chars(us), dict, cfg)
      span == [kind |-> "word", n |-> s.n, sf |-> Chars(us), forms |-> sf, pre |-> <<>>, post |-> MovedBlanks(us)]
  IN  IF s.n = 0 \/ sf = {} THEN plains
      ELSE IF s.must THEN {span} ELSE plains \cup {span}
=============================================================================
