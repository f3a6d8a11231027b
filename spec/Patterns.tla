------------------------------- MODULE Patterns -------------------------------
(* Pattern lists (PatternList, MatchExe, MatchState): an ordered store of        *)
(* patterns over lemmas and tags, built by a sequence of insertions, and the     *)
(* classification of lexical forms by the first pattern that matches.           *)
(* Symbols: a character c > 0, a tag t < 0, and three wildcards.                 *)
EXTENDS Base
AnyC == "c"      \* one or more characters
AnyT == "t"      \* one or more tags
Queue == "q"     \* optionally, one of '_', ' ', '#' and any characters after it
Chr(x) == <<"s", x>>
Wild(x) == <<x, 0>>
\* what one insertion of a lemma and a list of tags adds (0 stands for a wildcard in both)
Unit(lemma, tags) ==
  (IF lemma = <<>> THEN <<Wild(AnyC)>> ELSE MapSeq(lemma, LAMBDA x : IF x = 0 THEN Wild(AnyC) ELSE Chr(x)))
  \o (IF tags = <<>> THEN <<Wild(AnyT)>> ELSE MapSeq(tags, LAMBDA x : IF x = 0 THEN Wild(AnyT) ELSE Chr(x)))
Plus == Chr(43)
\* the state of a list: store = set of <<id, pattern>>; open; data = patterns of the open sequence; sid
Empty == [store |-> {}, open |-> FALSE, data |-> {}, sid |-> 0]
Insert(s, id, lemma, tags) ==
  IF ~s.open THEN [s EXCEPT !.store = @ \cup {<<id, Append(Unit(lemma, tags), Wild(Queue))>>}]
  ELSE [s EXCEPT !.sid = id, !.data = IF @ = {} THEN {Unit(lemma, tags)} ELSE {p \o <<Plus>> \o Unit(lemma, tags) : p \in @}]
InsertLabel(s, id, other) ==
  LET P == {x[2] : x \in {y \in s.store : y[1] = other}}
  IN  [s EXCEPT !.sid = id, !.data = IF @ = {} THEN P ELSE {a \o <<Plus>> \o b : a \in @, b \in P}]
Begin(s) == [s EXCEPT !.open = TRUE, !.data = {}]
End(s) == [s EXCEPT !.open = FALSE, !.data = {}, !.store = @ \cup {<<s.sid, Append(p, Wild(Queue))>> : p \in s.data}]
Apply(s, o) == CASE o.op = "insert" -> Insert(s, o.id, o.lemma, o.tags)
                 [] o.op = "label" -> InsertLabel(s, o.id, o.other)
                 [] o.op = "begin" -> Begin(s)
                 [] o.op = "end" -> End(s)
\* ---- matching -------------------------------------------------------------------------
RECURSIVE Matches(_, _, _, _)
Matches(p, i, w, j) ==
  IF i > Len(p) THEN j > Len(w)
  ELSE LET k == p[i][1]
           here == j <= Len(w)
       IN  CASE k = "s" -> here /\ w[j] = p[i][2] /\ Matches(p, i + 1, w, j + 1)
             [] k = AnyC -> here /\ w[j] > 0 /\ (Matches(p, i + 1, w, j + 1) \/ Matches(p, i, w, j + 1))
             [] k = AnyT -> here /\ w[j] < 0 /\ (Matches(p, i + 1, w, j + 1) \/ Matches(p, i, w, j + 1))
             [] k = Queue -> \/ Matches(p, i + 1, w, j)
                             \/ /\ here /\ w[j] \in {95, 32, 35}
                                /\ \E e \in j..Len(w) : (\A x \in (j + 1)..e : w[x] > 0) /\ Matches(p, i + 1, w, e + 1)
\* a pattern that was inserted under several numbers belongs to the smallest of them: banning
\* that number does not bring the others back
Owner(store, p) == MinOf({y[1] : y \in {z \in store : z[2] = p}})
Classify(store, banned, w) ==
  LET M == {p \in {y[2] : y \in store} : Matches(p, 1, w, 1)}
      C == {Owner(store, p) : p \in M} \ banned
  IN  IF C = {} THEN -1 ELSE MinOf(C)
=============================================================================
