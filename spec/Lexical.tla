------------------------------- MODULE Lexical -------------------------------
(* Streams of lexical units  blank ^reading/reading$ blank ...  as read by       *)
(* generation (lt-proc -g -d -n -l -m -C) and lexical transfer (-b -o -O), and   *)
(* what these modes write for each unit.  Everything outside the units is        *)
(* copied as it is.                                                              *)
EXTENDS Analysis

\* ---- reading -------------------------------------------------------------------
RECURSIVE CloseOf(_, _, _)       \* position of the unescaped character c at or after i
CloseOf(s, i, c) == IF i > Len(s) THEN Len(s)
                    ELSE IF s[i] = 92 THEN CloseOf(s, i + 2, c)
                    ELSE IF s[i] = c THEN i ELSE CloseOf(s, i + 1, c)
\* the piece of a unit that begins at i: [k, c, n]: a character (escaped or not), a tag or a {chunk}
PieceAt(s, i) == CASE s[i] = 60 -> [k |-> "tag", raw |-> SubSeq(s, i, CloseOf(s, i + 1, 62))]
                   [] s[i] = 123 -> [k |-> "chunk", raw |-> SubSeq(s, i, CloseOf(s, i + 1, 125))]
                   [] s[i] = 92 /\ i < Len(s) -> [k |-> "chr", raw |-> <<92, s[i + 1]>>]
                   [] OTHER -> [k |-> "chr", raw |-> <<s[i]>>]
RECURSIVE Pieces(_, _)           \* the pieces of a reading that begins at i, up to '/' or '$'
Pieces(s, i) == IF i > Len(s) \/ s[i] \in {47, 36} THEN <<>>
                ELSE LET x == PieceAt(s, i) IN <<x>> \o Pieces(s, i + Len(x.raw))
RawLen(ps) == FoldLeft(LAMBDA a, x : a + Len(x.raw), 0, ps)
Marks == {42, 64, 35, 61, 37}    \* * @ # = %
ReadingAt(s, i) == LET m == IF i <= Len(s) /\ s[i] \in Marks THEN s[i] ELSE 0
                       b == IF m = 0 THEN i ELSE i + 1
                       ps == Pieces(s, b)
                   IN  [mark |-> m, ps |-> SelectSeq(ps, LAMBDA x : x.k # "chunk"), next |-> b + RawLen(ps)]
RECURSIVE Readings(_, _)
Readings(s, i) == LET r == ReadingAt(s, i)
                  IN  IF r.next <= Len(s) /\ s[r.next] = 47 THEN <<r>> \o Readings(s, r.next + 1) ELSE <<r>>
\* the unit that begins with the '^' at p: its readings and the position after it
LexUnit(s, p) == LET rs == Readings(s, p + 1) IN [rs |-> rs, next |-> rs[Len(rs)].next + 1]
\* end of the piece of blank that begins at p
BlankPiece(s, p) == CASE s[p] = 92 /\ p < Len(s) -> p + 1
                      [] s[p] = 91 -> LET e == BlankEnd(s, p) IN IF e = 0 THEN Len(s) ELSE e
                      [] OTHER -> p

\* ---- the contents of a reading -----------------------------------------------------
CharOf(x) == x.raw[Len(x.raw)]
TagId(raw, cfg) == LET S == {i \in 1..Len(cfg.tagcps) : cfg.tagcps[i] = raw}
                   IN  IF S = {} THEN -2000000000 ELSE -MinOf(S)
SymOf(x, cfg) == IF x.k = "tag" THEN TagId(x.raw, cfg) ELSE CharOf(x)
Syms(ps, cfg) == [i \in 1..Len(ps) |-> SymOf(ps[i], cfg)]
Raw(ps) == Flat([i \in 1..Len(ps) |-> ps[i].raw])
\* characters that still need it get their escape
Escaped(x) == IF x.k = "tag" THEN Flat([i \in 1..Len(x.raw) |-> IF x.raw[i] = 92 THEN <<92>> ELSE
                                            IF i > 1 /\ x.raw[i - 1] = 92 THEN <<x.raw[i]>> ELSE Esc(<<x.raw[i]>>)])
              ELSE IF Len(x.raw) = 2 THEN x.raw ELSE Esc(x.raw)
EscapedAll(ps) == Flat([i \in 1..Len(ps) |-> Escaped(ps[i])])
LemmaEnd(ps) == LET S == {i \in 2..Len(ps) : ps[i].k = "tag"} IN IF S = {} THEN Len(ps) ELSE MinOf(S) - 1
Lemma(ps) == EscapedAll(Take(ps, LemmaEnd(ps)))
WithTags(ps) == Lemma(ps) \o Raw(Drop(ps, LemmaEnd(ps)))

\* ---- lists of forms ------------------------------------------------------------------
\* every position in out at which the forms S (set of <<text, weight>>), each followed by tail, separated by '/',
\* best first, at most N of at most L weights, can end when they begin at q
RECURSIVE FormEnds(_, _, _, _, _, _, _, _)
FormEnds(out, q, S, last, n, cls, cfg, tail) ==
  LET least == MinOf({x[2] : x \in S})
      full == S = {} \/ n = cfg.N \/ (cls = cfg.L /\ least > last)
      txt(x) == (IF n = 0 THEN <<>> ELSE <<47>>) \o x[1] \o (IF cfg.W THEN WText(x[2]) ELSE <<>>) \o tail
  IN  IF full THEN {q}
      ELSE UNION {IF StartsAt(out, q, txt(x))
                  THEN FormEnds(out, q + Len(txt(x)), S \ {x}, x[2], n + 1, IF n > 0 /\ x[2] = last THEN cls ELSE cls + 1, cfg, tail)
                  ELSE {} : x \in {y \in S : y[2] = least}}
Ends(out, q, t) == IF StartsAt(out, q, t) THEN {q + Len(t)} ELSE {}

\* ---- generation ------------------------------------------------------------------------
MatchSyms(in, syms, cfg) == Len(in) = Len(syms) /\ \A i \in 1..Len(in) : SameC(syms[i], in[i], cfg)
DirtySyms(in, syms) == \E i \in 1..Len(in) : in[i] # syms[i]
GenPairs(ps, dict, cfg) ==
  LET syms == Syms(ps, cfg)
      raw == Raw(ps)
      case == [first |-> ~cfg.dictcase /\ raw # <<>> /\ IsUpperC(raw[1]), all |-> ~cfg.dictcase /\ Len(raw) > 1 /\ IsUpperC(raw[2])]
  IN  {<<Form(e[2], DirtySyms(e[1], syms), case, cfg), e[3]>> : e \in {x \in dict : MatchSyms(x[1], syms, cfg)}}
GenForms(ps, dict, cfg) == Best(GenPairs(ps, dict, cfg))
\* exact matches of the dictionary; with -C these win
ExactPairs(ps, dict, cfg) == LET syms == Syms(ps, cfg)
                             IN  {<<Render(e[2], FALSE, cfg), e[3]>> : e \in {x \in dict : x[1] = syms}}
\* nm: ^lemma/MARKunit$
Nm(m, ps) == <<94>> \o Lemma(ps) \o <<47, m>> \o WithTags(ps) \o <<36>>
NotGenerated(ps, mode) ==
  CASE mode = "all" -> <<35>> \o EscapedAll(ps)
    [] mode \in {"careful", "unknown", "tagged"} -> (IF ps # <<>> THEN <<35>> ELSE <<>>) \o Lemma(ps)
    [] mode \in {"bilgen", "clean"} -> Lemma(ps)
    [] mode = "nm" -> Nm(35, ps)
Known(S, ps, out, q, cfg) ==
  IF cfg.mode \in {"tagged", "nm"}
  THEN UNION {Ends(out, e, <<47>> \o WithTags(ps) \o <<36>>) : e \in UNION {FormEnds(out, q1, S, 0, 0, 0, cfg, <<>>) : q1 \in Ends(out, q, <<94>>)}}
  ELSE FormEnds(out, q, S, 0, 0, 0, cfg, <<>>)
\* positions at which what is written for the unit can end
GenEnds(u, out, q, dict, cfg) ==
  LET r == u.rs[1]
      ps == IF r.mark = 35 THEN <<[k |-> "chr", raw |-> <<35>>]>> \o r.ps ELSE r.ps
      q1s == IF r.mark = 61 THEN Ends(out, q, <<61>>) ELSE {q}
      S == GenForms(ps, dict, cfg)
      X == ExactPairs(ps, dict, cfg)
  IN  CASE r.mark \in {42, 37} ->
             Ends(out, q, IF cfg.mode = "nm" THEN Nm(r.mark, ps)
                          ELSE (IF cfg.mode = "clean" THEN <<>> ELSE <<r.mark>>) \o EscapedAll(ps))
        [] r.mark = 64 ->
             Ends(out, q, CASE cfg.mode = "all" -> <<64>> \o EscapedAll(ps)
                            [] cfg.mode \in {"unknown", "tagged", "careful"} -> <<64>> \o Lemma(ps)
                            [] cfg.mode \in {"bilgen", "clean"} -> Lemma(ps)
                            [] cfg.mode = "nm" -> Nm(64, ps))
        [] OTHER ->
             \* -C decides per letter whether the dictionary has the case: any choice that has the exact matches is allowed
             LET choices == IF cfg.mode = "careful" THEN {Best(T) : T \in {T \in SUBSET GenPairs(ps, dict, cfg) : X \subseteq T}} ELSE {S}
             IN  UNION {UNION {IF T = {} THEN Ends(out, q1, NotGenerated(ps, cfg.mode)) ELSE Known(T, ps, out, q1, cfg)
                               : T \in choices} : q1 \in q1s}

\* ---- lexical transfer ----------------------------------------------------------------------
\* a leading # or %, and a = that stands alone, belong to the lemma
LeadOf(r) == IF r.mark \in {35, 37} \/ (r.mark = 61 /\ (r.ps = <<>> \/ r.ps[1].k = "tag")) THEN <<r.mark>> ELSE <<>>
Source(r) == LeadOf(r) \o Flat([i \in 1..Len(r.ps) |->
                 IF r.ps[i].k = "tag" THEN r.ps[i].raw
                 ELSE IF CharOf(r.ps[i]) \in Special \/ (i = 1 /\ CharOf(r.ps[i]) = 42) THEN <<92, CharOf(r.ps[i])>> ELSE <<CharOf(r.ps[i])>>])
\* source of the pieces after the n-th
SourceAfter(r, n) == Flat([i \in 1..(Len(r.ps) - n) |->
                 IF r.ps[n + i].k = "tag" THEN r.ps[n + i].raw
                 ELSE IF CharOf(r.ps[n + i]) \in Special THEN <<92, CharOf(r.ps[n + i])>> ELSE <<CharOf(r.ps[n + i])>>])
BilMatch(r, dict, cfg) ==       \* [n: pieces matched (0: none), forms]
  LET lead == LeadOf(r)
      syms == Syms(r.ps, cfg)
      n == Len(syms)
      case == [first |-> n > 0 /\ IsUpperC(syms[1]), all |-> n > 1 /\ IsUpperC(syms[1]) /\ IsUpperC(syms[2])]
      at(m) == {e \in dict : MatchSyms(e[1], lead \o Take(syms, m), cfg)}
      ok == {m \in 1..n : at(m) # {}}
      whole == ~ (\E i \in 1..n : r.ps[i].k = "tag") \/ cfg.mode \in {"all", "bilgen"}
  IN  IF ok = {} THEN [n |-> 0, forms |-> {}]
      ELSE LET m == MaxOf(ok)
           IN  IF whole /\ m < n THEN [n |-> 0, forms |-> {}]
               ELSE [n |-> m, forms |-> Best({<<Form(e[2], DirtySyms(e[1], lead \o Take(syms, m)), case, cfg), e[3]>> : e \in at(m)})]
BilEnds(u, out, q, dict, cfg) ==
  LET idx == IF cfg.surf = "no" THEN 1 ELSE 2
      sf == u.rs[1]
      head == IF cfg.surf = "keep" THEN <<94>> \o (IF sf.mark # 0 THEN <<sf.mark>> ELSE <<>>) \o Raw(sf.ps) \o <<47>> ELSE <<94>>
  IN  IF idx > Len(u.rs)
      THEN Ends(out, q, IF cfg.surf = "keep" THEN <<94>> \o (IF sf.mark # 0 THEN <<sf.mark>> ELSE <<>>) \o Raw(sf.ps) \o <<36>> ELSE <<>>)
      ELSE LET r == u.rs[idx]
               b == BilMatch(r, dict, cfg)
           IN  IF r.mark = 42
               THEN Ends(out, q, head \o <<42>> \o Raw(r.ps) \o <<47>> \o (IF cfg.mode = "clean" THEN <<>> ELSE <<42>>) \o Raw(r.ps) \o <<36>>)
               ELSE IF r.ps = <<>> /\ LeadOf(r) = <<>> THEN Ends(out, q, head \o <<36>>)
               ELSE IF b.forms = {}
               THEN Ends(out, q, head \o Source(r) \o <<47, IF cfg.mode = "all" THEN 35 ELSE 64>> \o Source(r) \o <<36>>)
               ELSE UNION {Ends(out, e, <<36>>) : e \in
                      UNION {FormEnds(out, q1, b.forms, 0, 0, 0, cfg, SourceAfter(r, b.n)) : q1 \in Ends(out, q, head \o Source(r) \o <<47>>)}}
=============================================================================
