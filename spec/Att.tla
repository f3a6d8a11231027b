-------------------------------- MODULE Att ---------------------------------
(* Transducers written in AT&T format: a sequence of lines, each one           *)
(*   [k |-> "arc", s, d (states), l, r (text of the two fields), w]            *)
(*   [k |-> "fin", s, w]        [k |-> "sep"]                                  *)
(* The source of the first line of a transducer is its initial state; the      *)
(* transducers between the separators are united.                              *)
EXTENDS Base
EpsShort == <<64, 48, 64>>
EpsLong == <<64, 95, 69, 80, 83, 73, 76, 79, 78, 95, 83, 89, 77, 66, 79, 76, 95, 64>>
SpaceSym == <<64, 95, 83, 80, 65, 67, 69, 95, 64>>
TabSym == <<64, 95, 84, 65, 66, 95, 64>>
\* the symbols a field stands for
FieldSyms(f, hfst, tagcps) ==
  IF f = <<>> \/ f = EpsShort \/ f = EpsLong \/ (~hfst /\ f = <<949>>) THEN <<>>
  ELSE IF f = SpaceSym THEN <<32>>
  ELSE IF f = TabSym THEN <<9>>
  ELSE IF Len(f) >= 2 /\ f[1] = 60 /\ f[Len(f)] = 62 THEN <<-(CHOOSE i \in 1..Len(tagcps) : tagcps[i] = f)>>
  ELSE f
RECURSIVE AttSplit(_)
AttSplit(lines) ==
  LET seps == {i \in 1..Len(lines) : lines[i].k = "sep"}
  IN  IF seps = {} THEN (IF lines = <<>> THEN <<>> ELSE <<lines>>)
      ELSE LET p == MinOf(seps) IN (IF p = 1 THEN <<>> ELSE <<Take(lines, p - 1)>>) \o AttSplit(Drop(lines, p))
\* pairs of strings of at most max symbols; no cycle of empty symbols
AttRel(fst, dir, hfst, tagcps, max) ==
  LET L == RangeOf(fst)
      sym(f) == FieldSyms(f, hfst, tagcps)
      arcs == {LET a == sym(x.l)
                   b == sym(x.r)
               IN  IF dir = "RL" THEN <<x.s, x.d, b, a, x.w>> ELSE <<x.s, x.d, a, b, x.w>> : x \in {y \in L : y.k = "arc"}}
      from == [s \in {a[1] : a \in arcs} |-> {a \in arcs : a[1] = s}]
      next(c) == IF c[1] \notin DOMAIN from THEN {}
                 ELSE {<<a[2], c[2] \o a[3], c[3] \o a[4], c[4] + a[5]>> : a \in from[c[1]]}
      small(c) == Len(c[2]) <= max /\ Len(c[3]) <= max
      RECURSIVE Walk(_, _)
      Walk(F, acc) == IF F = {} THEN acc
                      ELSE LET G == {c \in UNION {next(x) : x \in F} : small(c)} \ acc IN Walk(G, acc \cup G)
      start == {<<fst[1].s, <<>>, <<>>, 0>>}
      fins == {y \in L : y.k = "fin"}
  IN  RelMin({<<c[2], c[3], c[4] + f.w>> : <<c, f>> \in {z \in Walk(start, start) \X fins : z[1][1] = z[2].s}})
\* letters and punctuation
IsPunctC(c) == c \in {33, 34, 35, 37, 38, 39, 40, 41, 42, 44, 45, 46, 47, 58, 59, 63, 64, 91, 92, 93, 95, 123, 125,
                      161, 167, 171, 182, 183, 187, 191, 8217, 8220, 8221, 12290, 1567}
Decided(c) == c > 0 /\ ~IsSpaceC(c)
FirstDecided(in) == LET D == {i \in 1..Len(in) : Decided(in[i])} IN IF D = {} THEN 0 ELSE in[MinOf(D)]
AttLetters(lines, hfst, tagcps) ==
  LET S == UNION {RangeOf(FieldSyms(x.l, hfst, tagcps)) \cup RangeOf(FieldSyms(x.r, hfst, tagcps)) : x \in {y \in RangeOf(lines) : y.k = "arc"}}
      W == {c \in S : Decided(c) /\ ~IsPunctC(c)}
  IN  W \cup {ToUpper(c) : c \in {d \in W : IsLowerC(d)}} \cup {ToLower(c) : c \in {d \in W : IsUpperC(d)}}
\* what lt-comp makes of them: words go to one section, what begins with punctuation to another
AttSections(lines, opt, tagcps) ==
  LET R == RelMin(UNION {AttRel(f, opt.dir, opt.hfst, tagcps, opt.max) : f \in RangeOf(AttSplit(lines))})
      W == {t \in R : ~IsPunctC(FirstDecided(t[1]))}
      P == {t \in R : IsPunctC(FirstDecided(t[1]))}
  IN  IF opt.split THEN {<<"main@standard", W>>, <<"final@inconditional", P>>} ELSE {<<"main@standard", R>>}
\* refused: some pair begins with neither a letter nor punctuation (it would match everywhere)
AttRefused(secs, opt) == opt.split /\ \E x \in secs : \E t \in x[2] : FirstDecided(t[1]) = 0
\* lt-print: one transducer for every section
PrintedAs(lines, bin, hfst, tagcps, max) ==
  LET F == AttSplit(lines)
      rels == [i \in 1..Len(F) |-> AttRel(F[i], "LR", hfst, tagcps, max)]
      secs == {x \in bin.secs : x[2] # {}}
      count(r) == Cardinality({i \in 1..Len(F) : rels[i] = r})
  IN  /\ \A x \in secs : count(x[2]) = Cardinality({y \in secs : y[2] = x[2]})
      /\ \A i \in 1..Len(F) : rels[i] = {} \/ \E x \in secs : x[2] = rels[i]
=============================================================================
