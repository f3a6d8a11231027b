------------------------------ MODULE Analysis ------------------------------
(* Morphological analysis (lt-proc, lt-proc -a): the text is cut, from left   *)
(* to right, into lexical units by longest match.                             *)
(*   dict  : set of <<input, output, weight, section type>>                   *)
(*   cfg   : [letters, cs (case sensitive), dictcase, ign, N, L, W, tagcps,   *)
(*           rcx (set of <<character, what it is restored to>>)]              *)
EXTENDS Stream

Alphabetic(c, cfg) == IsAlnumC(c) \/ c \in cfg.letters
Tok(ts, i) == IF i > Len(ts) THEN 0 ELSE ts[i][1]

\* ---- matching --------------------------------------------------------------
\* a character listed for restoration also stands for the characters it is restored to,
\* a listed capital for those of its small letter too, unless case matters
Restored(t, cfg) == {x[2] : x \in {y \in cfg.rcx : y[1] = t}}
Listed(t, cfg) == \E y \in cfg.rcx : y[1] = t
SameC(t, d, cfg) == \/ t = d
                    \/ ~cfg.cs /\ IsUpperC(t) /\ ToLower(t) = d
                    \/ d \in Restored(t, cfg)
                    \/ Listed(t, cfg) /\ ~cfg.cs /\ IsUpperC(t) /\ d \in Restored(ToLower(t), cfg)
RECURSIVE MatchLen(_, _, _, _, _)
MatchLen(in, n, ts, b, cfg) ==       \* n symbols of in already match the text after position b
  IF n < Len(in) /\ b + n < Len(ts) /\ SameC(ts[b + n + 1][1], in[n + 1], cfg) THEN MatchLen(in, n + 1, ts, b, cfg) ELSE n

\* ---- writing analyses ---------------------------------------------------------
\* the case of the surface form is carried over to the lemma when the match ignored case
RECURSIVE Render(_, _, _)
Render(out, up, cfg) ==
  IF out = <<>> THEN <<>>
  ELSE (IF out[1] < 0 THEN cfg.tagcps[-out[1]]
        ELSE (IF out[1] \in Special THEN <<92>> ELSE <<>>) \o <<IF up THEN ToUpper(out[1]) ELSE out[1]>>)
       \o Render(Tail(out), up, cfg)
FirstUp(s) == IF s = <<>> THEN s
              ELSE LET i == IF s[1] = 126 /\ Len(s) > 1 THEN 2 ELSE 1
                   IN  [s EXCEPT ![i] = ToUpper(s[i])]
CaseOf(sf, cfg) == LET f == sf # <<>> /\ ~cfg.dictcase /\ IsUpperC(sf[1])
                   IN  [first |-> f, all |-> f /\ Len(sf) > 1 /\ IsUpperC(sf[Len(sf)])]
Form(out, dirty, case, cfg) ==
  LET s == Render(out, dirty /\ case.all, cfg)
  IN  IF dirty /\ case.first THEN FirstUp(s) ELSE s
\* distinct analyses, each with the least weight of the paths that give it
Best(S) == {x \in S : ~ \E y \in S : y[1] = x[1] /\ y[2] < x[2]}

\* ---- one unit -------------------------------------------------------------------
\* the unit that begins at position p:
\*   [kind, n (tokens consumed), sf, forms (set of <<text, weight>>), blanks (texts that follow)]
Dirty(in, ts, b) == \E i \in 1..Len(in) : in[i] # ts[b + i][1]
MovedBlanks(us) == Flat([i \in 1..Len(us) |-> IF us[i][2] = <<32>> THEN <<>> ELSE us[i][2]])
RECURSIVE AlphaEnd(_, _, _)        \* last position of the run of letters that begins at i
AlphaEnd(ts, i, cfg) == IF i > Len(ts) \/ ~Alphabetic(ts[i][1], cfg) THEN i - 1 ELSE AlphaEnd(ts, i + 1, cfg)
UnitAt(ts, p, dict, cfg) ==
  LET b == p - 1
      ml == [e \in dict |-> MatchLen(e[1], 0, ts, b, cfg)]
      K == IF dict = {} THEN 0 ELSE MaxOf({ml[e] : e \in dict})
      full == {e \in dict : ml[e] = Len(e[1])}
      ends(k, type) == \E e \in full : Len(e[1]) = k /\ e[4] = type
      ok(k) == \/ \E t \in {"inconditional", "postblank", "preblank"} : ends(k, t)
               \/ ends(k, "standard") /\ ~Alphabetic(Tok(ts, b + k + 1), cfg)
      ms == {k \in 1..K : ok(k)}
  IN  IF ms # {}
      THEN LET m == MaxOf(ms)
               us == SubSeq(ts, p, b + m)
               sf == Chars(us)
               case == CaseOf(sf, cfg)
               type == CASE ends(m, "inconditional") -> "inconditional"
                         [] ends(m, "postblank") -> "postblank"
                         [] ends(m, "preblank") -> "preblank"
                         [] OTHER -> "standard"
           IN  [kind |-> "word", n |-> m, sf |-> sf,
                forms |-> Best({<<Form(e[2], Dirty(e[1], ts, b), case, cfg), e[3]>> : e \in {x \in full : Len(x[1]) = m}}),
                pre |-> IF type = "preblank" THEN <<32>> ELSE <<>>,
                post |-> MovedBlanks(us) \o (IF type = "postblank" THEN <<32>> ELSE <<>>)]
      ELSE LET w == Chars(SubSeq(ts, p, AlphaEnd(ts, p, cfg)))
           IN  IF w = <<>>
               THEN [kind |-> "char", n |-> 1, sf |-> <<>>, forms |-> {},
                     pre |-> IF ts[p][2] # <<>> THEN ts[p][2] ELSE Esc(<<ts[p][1]>>), post |-> <<>>]
               ELSE [kind |-> "unknown", n |-> Len(w), sf |-> w, forms |-> {<<<<42>> \o Esc(w), 0>>}, pre |-> <<>>, post |-> <<>>]

\* ---- the written unit ----------------------------------------------------------------
Digits(n) == LET RECURSIVE D(_) D(x) == IF x < 10 THEN <<48 + x>> ELSE D(x \div 10) \o <<48 + (x % 10)>> IN D(n)
Pad3(n) == <<48 + (n \div 100), 48 + ((n \div 10) % 10), 48 + (n % 10)>>
WText(w) == LET a == IF w < 0 THEN -w ELSE w
            IN  <<60, 87, 58>> \o (IF w < 0 THEN <<45>> ELSE <<>>) \o Digits(a \div 1000000) \o <<46>> \o Pad3(((a \div 1000) % 1000)) \o Pad3((a % 1000)) \o <<62>>
\* the forms, written best first (any order among equals), at most cfg.N, of at most cfg.L weights:
\* position after them in out, or 0 when out does not show them so from position q
RECURSIVE ReadForms(_, _, _, _, _, _, _, _)
ReadForms(out, q, S, last, n, cls, cfg, w) ==
  LET cand == {x \in S : LET t == <<47>> \o x[1] \o (IF w THEN WText(x[2]) ELSE <<>>)
                         IN  /\ StartsAt(out, q, t)
                             /\ q + Len(t) <= Len(out)
                             /\ out[q + Len(t)] \in {47, 36}}
      least == MinOf({x[2] : x \in S})
      full == S = {} \/ n = cfg.N \/ (cls = cfg.L /\ least > last)
  IN  IF full THEN q
      ELSE IF cand = {} THEN 0
      ELSE LET x == CHOOSE y \in cand : TRUE
           IN  IF x[2] # least THEN 0
               ELSE ReadForms(out, q + 1 + Len(x[1]) + (IF w THEN Len(WText(x[2])) ELSE 0), S \ {x}, x[2], n + 1,
                              IF n > 0 /\ x[2] = last THEN cls ELSE cls + 1, cfg, w)
\* position in out after unit u, or 0
UnitShown(u, out, q, cfg) ==
  IF u.kind = "char" THEN (IF StartsAt(out, q, u.pre) THEN q + Len(u.pre) ELSE 0)
  ELSE LET h == u.pre \o <<94>> \o Esc(u.sf)
           q1 == q + Len(h)
           q2 == IF StartsAt(out, q, h) THEN ReadForms(out, q1, u.forms, 0, 0, 0, cfg, cfg.W /\ u.kind = "word") ELSE 0
           t == <<36>> \o u.post
       IN  IF q2 # 0 /\ StartsAt(out, q2, t) THEN q2 + Len(t) ELSE 0
=============================================================================
