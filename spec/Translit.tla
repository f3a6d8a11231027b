------------------------------- MODULE Translit -------------------------------
(* Postgeneration and transliteration (lt-proc -p, -t, -x): rewriting of text by *)
(* longest match, across words, keeping blanks and word-bound blanks.            *)
(* A rule is [p: sequence of aligned pairs <<input, output>> (0 is empty), w].   *)
EXTENDS Stream

IsSp(c) == c \in {9, 10, 11, 12, 13, 32, 133, 160}
\* ---- reading: words [b: blank before, wb: word-bound blank, x: symbols, ib: blanks for the spaces in x] --------
RECURSIVE BlankRun(_, _)            \* position after the blanks that begin at i
BlankRun(s, i) ==
  IF i > Len(s) THEN i
  ELSE IF IsSp(s[i]) THEN BlankRun(s, i + 1)
  ELSE IF s[i] = 91 /\ ~(i < Len(s) /\ s[i + 1] = 91)
       THEN LET e == CloseBlank(s, i + 1) IN IF e = 0 THEN Len(s) + 1 ELSE BlankRun(s, e + 1)
  ELSE i
RECURSIVE PlainWord(_, _)           \* [x, ib, next]
PlainWord(s, i) ==
  IF i > Len(s) \/ IsSp(s[i]) \/ s[i] = 91 THEN [x |-> <<>>, ib |-> <<>>, next |-> i]
  ELSE LET esc == s[i] = 92 /\ i < Len(s)
           c == IF esc THEN s[i + 1] ELSE s[i]
           r == PlainWord(s, IF esc THEN i + 2 ELSE i + 1)
       IN  [x |-> <<c>> \o r.x, ib |-> (IF esc /\ c = 32 THEN <<<<32>>>> ELSE <<>>) \o r.ib, next |-> r.next]
RECURSIVE BoundWord(_, _)           \* the inside of [[...]]word[[/]], up to the next [[
BoundWord(s, i) ==
  IF i > Len(s) \/ (s[i] = 91 /\ i < Len(s) /\ s[i + 1] = 91) THEN [x |-> <<>>, ib |-> <<>>, next |-> i]
  ELSE LET e == BlankRun(s, i)
       IN  IF e > i THEN LET r == BoundWord(s, e)
                         IN  [x |-> <<32>> \o r.x, ib |-> <<SubSeq(s, i, e - 1)>> \o r.ib, next |-> r.next]
           ELSE LET esc == s[i] = 92 /\ i < Len(s)
                    c == IF esc THEN s[i + 1] ELSE s[i]
                    r == BoundWord(s, IF esc THEN i + 2 ELSE i + 1)
                IN  [x |-> <<c>> \o r.x, ib |-> (IF esc /\ c = 32 THEN <<<<32>>>> ELSE <<>>) \o r.ib, next |-> r.next]
RECURSIVE Words(_, _)               \* [ws, tail: the blank at the end]
Words(s, i) ==
  LET b == BlankRun(s, i)
      bl == SubSeq(s, i, b - 1)
  IN  IF b > Len(s) THEN [ws |-> <<>>, tail |-> bl]
      ELSE IF s[b] = 91
      THEN LET e == CloseWBlank(s, b + 2)
               r == BoundWord(s, e + 1)
               rest == Words(s, IF r.next > Len(s) THEN r.next ELSE CloseWBlank(s, r.next + 2) + 1)
           IN  [ws |-> <<[b |-> bl, wb |-> SubSeq(s, b, e), x |-> r.x, ib |-> r.ib]>> \o rest.ws, tail |-> rest.tail]
      ELSE LET r == PlainWord(s, b)
               rest == Words(s, r.next)
           IN  [ws |-> <<[b |-> bl, wb |-> <<>>, x |-> r.x, ib |-> r.ib]>> \o rest.ws, tail |-> rest.tail]

\* ---- rewriting -------------------------------------------------------------------------
\* g, the group of words being rewritten: [lead, wb, x, bl: blanks of the spaces x was read with, sd: spaces added, s: done]
Group(w) == [lead |-> w.b, wb |-> w.wb, x |-> w.x, bl |-> w.ib, sd |-> 0, s |-> 0]
MergeWb(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a ELSE Take(a, Len(a) - 2) \o <<59, 32>> \o Drop(b, 2)
Merge(g, w) == [g EXCEPT !.wb = MergeWb(g.wb, w.wb), !.x = g.x \o <<32>> \o w.x, !.bl = g.bl \o <<w.b>> \o w.ib]
RECURSIVE Ahead(_)
Ahead(ws) == IF ws = <<>> THEN <<>> ELSE <<32>> \o ws[1].x \o Ahead(Tail(ws))
Ins(r) == SelectSeq([i \in 1..Len(r.p) |-> r.p[i][1]], LAMBDA c : c # 0)
SameT(t, d, cs) == t = d \/ (~cs /\ IsUpperC(t) /\ ToLower(t) = d)
Fits(r, txt, s, cs) == LET in == Ins(r) IN s + Len(in) <= Len(txt) /\ \A i \in 1..Len(in) : SameT(txt[s + i], in[i], cs)
\* what the rule writes for the text at s: a letter that only differs in case from the text's capital is written as in the text
RECURSIVE OutOf(_, _, _, _)
OutOf(p, txt, s, cs) ==
  IF p = <<>> THEN <<>>
  ELSE LET a == p[1][1]
           b == p[1][2]
           t == IF a = 0 THEN 0 ELSE txt[s + 1]
           o == IF a # 0 /\ ~cs /\ IsUpperC(t) /\ b = ToLower(t) THEN t ELSE b
       IN  (IF o = 0 THEN <<>> ELSE <<o>>) \o OutOf(Tail(p), txt, IF a = 0 THEN s ELSE s + 1, cs)
Letters(seg, letters) == SelectSeq(seg, LAMBDA c : IsAlnumC(c) \/ c \in letters)
FirstUpT(o) == IF o = <<>> THEN o ELSE LET i == IF o[1] = 126 /\ Len(o) > 1 THEN 2 ELSE 1 IN [o EXCEPT ![i] = ToUpper(o[i])]
Rewritten(r, txt, s, letters, cs) ==
  LET n == Len(Ins(r))
      seg == SubSeq(txt, s + 1, s + n)
      al == Letters(seg, letters)
      first == al # <<>> /\ IsUpperC(al[1])
      all == first /\ Len(al) > 1 /\ IsUpperC(al[2])
      dirty == Ins(r) # seg
      o == OutOf(r.p, txt, s, cs)
      o2 == IF dirty /\ all THEN UpperSeq(o) ELSE o
  IN  IF dirty /\ first THEN FirstUpT(o2) ELSE o2
RECURSIVE CommonSuffix(_, _)
CommonSuffix(a, b) == IF a = <<>> \/ b = <<>> \/ a[Len(a)] # b[Len(b)] THEN 0 ELSE 1 + CommonSuffix(Front(a), Front(b))
Spaces(x) == Cardinality({i \in 1..Len(x) : x[i] = 32})
\* words of ws that the text up to position e (in x \o Ahead(ws)) reaches into
RECURSIVE Reach(_, _, _)
Reach(len, ws, e) == IF e <= len \/ ws = <<>> THEN 0 ELSE 1 + Reach(len + 1 + Len(ws[1].x), Tail(ws), e)
RECURSIVE MergeN(_, _, _)
MergeN(g, ws, n) == IF n = 0 THEN g ELSE MergeN(Merge(g, ws[1]), Tail(ws), n - 1)
\* the longest matches at g.s
MatchesAt(g, ws, rules, cs) ==
  LET txt == g.x \o Ahead(ws)
      F == {r \in rules : Fits(r, txt, g.s, cs)}
  IN  IF F = {} THEN {} ELSE LET m == MaxOf({Len(Ins(r)) : r \in F}) IN {r \in F : Len(Ins(r)) = m}
\* the possible outcomes of rewriting at g.s: set of [g, n (words taken from ws)]
Rewrites(g, ws, rules, cs, letters) ==
  LET txt == g.x \o Ahead(ws)
      R == MatchesAt(g, ws, rules, cs)
      least == MinOf({r.w : r \in R})
      one(r) ==
        LET m == Len(Ins(r))
            o == Rewritten(r, txt, g.s, letters, cs)
            e == g.s + m
            n == Reach(Len(g.x), ws, e)
            \* the match ends with the space before the last of these words, and so does the output: both are left alone
            ends == n > 0 /\ e = Len(g.x) + 1 + Len(Ahead(Take(ws, n - 1))) /\ o # <<>> /\ o[Len(o)] = 32
            n2 == IF ends THEN n - 1 ELSE n
            e2 == IF ends THEN e - 1 ELSE e
            o2 == IF ends THEN Front(o) ELSE o
            h == MergeN(g, ws, n2)
            seg == SubSeq(h.x, g.s + 1, e2)
            i == CommonSuffix(o2, seg)
            nx == Take(h.x, g.s) \o o2 \o Drop(h.x, e2)
        IN  [g |-> [h EXCEPT !.x = nx, !.sd = h.sd + Spaces(nx) - Spaces(h.x),
                             !.s = g.s + Len(o2) - i + (IF i = Len(seg) THEN 1 ELSE 0)],
             n |-> n2]
  IN  {one(r) : r \in {x \in R : x.w = least}}

\* ---- writing ------------------------------------------------------------------------
RECURSIVE WriteX(_, _, _, _)
WriteX(x, bl, extra, tilde) ==      \* extra: spaces still left for which a blank was read
  IF x = <<>> THEN <<>>
  ELSE IF x[1] = 32
       THEN IF extra > 0 THEN bl[1] \o WriteX(Tail(x), Tail(bl), extra - 1, tilde) ELSE <<32>> \o WriteX(Tail(x), bl, 0, tilde)
       ELSE IF x[1] = 126 /\ tilde THEN WriteX(Tail(x), bl, extra, tilde)
       ELSE Esc(<<x[1]>>) \o WriteX(Tail(x), bl, extra, tilde)
Written(g, tilde) ==
  LET have == Len(g.bl)
      used == IF Spaces(g.x) < have THEN Spaces(g.x) ELSE have
      left == Drop(g.bl, used)
  IN  g.lead \o g.wb \o WriteX(g.x, g.bl, used, tilde) \o (IF g.wb # <<>> THEN <<91, 91, 47, 93, 93>> ELSE <<>>)
      \o Flat([i \in 1..Len(left) |-> IF left[i] = <<32>> THEN <<>> ELSE left[i]])
=============================================================================
