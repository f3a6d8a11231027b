------------------------------ MODULE Toolchain ------------------------------
(* The dictionary tool chain as a state machine.  The state is a store of     *)
(* compiled dictionaries; every command line tool is an action that reads     *)
(* store entries and writes one.                                              *)
(* A compiled dictionary is [letters : set of code points,                    *)
(*                           secs : set of <<section name, relation>>].       *)
EXTENDS Dix, Att, Paradigm

VARIABLES store,    \* file name -> compiled dictionary
          status    \* "ok" / "fail": exit status of the last command

Bin(letters, secs) == [letters |-> letters, secs |-> secs]
Put(f, b) == store' = (f :> b) @@ store

CompileOK(dix, opt) ==
  /\ ~UndefinedTag(dix, opt)
  /\ ~UndefinedPar(dix, opt)
  /\ ~BadSide(DixSectionsAll(dix, opt))

Compile(dst, dix, opt) ==
  IF CompileOK(dix, opt)
  THEN /\ status' = "ok"
       /\ Put(dst, Bin(RangeOf(dix.letters), DixSections(dix, opt)))
  ELSE status' = "fail" /\ UNCHANGED store

\* ---- lt-invert ----------------------------------------------------------------
InvertBin(b) == Bin(b.letters, {<<x[1], RelSwap(x[2])>> : x \in b.secs})
Invert(dst, a) == status' = "ok" /\ Put(dst, InvertBin(store[a]))

\* ---- lt-append ----------------------------------------------------------------
Names(b) == {x[1] : x \in b.secs}
AppendBin(a, b, keep) ==
  Bin(a.letters \cup b.letters,
      {x \in a.secs : keep \/ x[1] \notin Names(b)} \cup {x \in b.secs : ~keep \/ x[1] \notin Names(a)})
Append2(dst, a, b, keep) == status' = "ok" /\ Put(dst, AppendBin(store[a], store[b], keep))

\* ---- lt-apply-acx --------------------------------------------------------------
AcxBin(b, acx) == Bin(b.letters, {<<x[1], RelMin(AcxRel(x[2], acx))>> : x \in b.secs})
ApplyAcx(dst, a, acx) == status' = "ok" /\ Put(dst, AcxBin(store[a], acx))

\* ---- lt-restrict ----------------------------------------------------------------
\* ftags as in Dix; a mark survives the restriction to (dir, alt, v, vl, vr) iff
MarkKept(m, opt) ==
  CASE m.kind = "r"   -> m.val = opt.dir
    [] m.kind = "alt" -> m.val = opt.alt
    [] m.kind = "v"   -> opt.v = "" \/ m.val = opt.v
    [] m.kind = "vl"  -> opt.dir = "LR" \/ m.val = opt.vl
    [] m.kind = "vr"  -> opt.dir = "RL" \/ m.val = opt.vr
RestrictRel(R, opt) ==
  LET marks == RangeOf(opt.ftags)
      ids == {m.id : m \in marks}
      bad == {m.id : m \in {n \in marks : ~MarkKept(n, opt)}}
      plain(x) == x \notin ids
      S == {<<SelectSeq(t[1], plain), SelectSeq(t[2], plain), t[3]>> :
              t \in {u \in R : RangeOf(u[1]) \cap bad = {}}}
  IN  RelMin(IF opt.dir = "RL" THEN RelSwap(S) ELSE S)
NonEmpty(secs) == {x \in secs : x[2] # {}}
RestrictBin(b, opt) == Bin(b.letters, NonEmpty({<<x[1], RestrictRel(x[2], opt)>> : x \in b.secs}))
RestrictTo(dst, a, opt) == status' = "ok" /\ Put(dst, RestrictBin(store[a], opt))

\* ---- lt-compose ------------------------------------------------------------------
UnionRel(b) == UNION {x[2] : x \in b.secs}
ComposeRel(F, G, inv) ==
  RelMin({IF inv THEN <<p[2][2], p[1][2], p[1][3] + p[2][3]>>
                 ELSE <<p[1][1], p[2][2], p[1][3] + p[2][3]>> :
          p \in {q \in F \X G : (IF inv THEN q[1][1] ELSE q[1][2]) = q[2][1]}})
\* "anywhere": the symbol pairs of a path of f are copied up to some point, and the rest of the
\* path (possibly nothing) is composed with g.  paths = set of <<sequence of <<l, r>>, weight>>
Lefts(p) == SelectSeq([i \in 1..Len(p) |-> p[i][1]], LAMBDA c : c # 0)
Rights(p) == SelectSeq([i \in 1..Len(p) |-> p[i][2]], LAMBDA c : c # 0)
ComposeAnyRel(paths, G, inv) ==
  LET pairs(p) == <<Lefts(p), Rights(p)>>
      tails(p, n) == LET a == pairs(SubSeq(p, 1, n))
                         z == pairs(Drop(p, n))
                     IN  {IF inv THEN <<a[1] \o g[2], a[2] \o z[2], g[3]>>
                                 ELSE <<a[1] \o z[1], a[2] \o g[2], g[3]>> :
                           g \in {h \in G : h[1] = (IF inv THEN z[1] ELSE z[2])}}
      one(pw) == {<<Lefts(pw[1]), Rights(pw[1]), pw[2]>>} \cup
                 UNION {RelAdd(tails(pw[1], n), pw[2]) : n \in 0..Len(pw[1])}
  IN  RelMin(UNION {one(pw) : pw \in paths})
PutOrFail(dst, letters, secs) ==
  IF secs = {} THEN status' = "fail" /\ UNCHANGED store
  ELSE status' = "ok" /\ Put(dst, Bin(letters, secs))
Compose(dst, f, g, inv) ==
  PutOrFail(dst, store[f].letters,
            NonEmpty({<<x[1], ComposeRel(x[2], UnionRel(store[g]), inv)>> : x \in store[f].secs}))
\* fpaths: the aligned paths of f, a set of <<section, paths>> consistent with store[f]
ComposeAny(dst, f, g, inv, fpaths) ==
  /\ {<<x[1], RelMin({<<Lefts(p[1]), Rights(p[1]), p[2]>> : p \in x[2]})>> : x \in fpaths} = store[f].secs
  /\ PutOrFail(dst, store[f].letters,
               NonEmpty({<<x[1], ComposeAnyRel(x[2], UnionRel(store[g]), inv)>> : x \in fpaths}))

\* ---- lt-trim ----------------------------------------------------------------------
\* A bidix left side b asks for analyses that are b followed by any tags.  If b has an invariable
\* part (after '#'), the analysis has it last: lemma, tags, any tags, '#', invariable part.
HasHash(b) == 35 \in RangeOf(b)
HashAt(b) == MinOf({i \in 1..Len(b) : b[i] = 35})
LemqEnd(b) == LET T == {i \in HashAt(b)..Len(b) : IsTag(b[i])}
              IN  IF T = {} THEN Len(b) + 1 ELSE MinOf(T)
HeadOf(b) == IF HasHash(b) THEN SubSeq(b, 1, HashAt(b) - 1) \o SubSeq(b, LemqEnd(b), Len(b)) ELSE b
TailOf(b) == IF HasHash(b) THEN SubSeq(b, HashAt(b), LemqEnd(b) - 1) ELSE <<>>
\* In separable dictionaries a symbol of the analysis may be a wildcard (sep.c: any character, sep.t:
\* any tag), and words end in one of the tags sep.wb.
Same(x, y, sep) == x = y \/ (x = sep.c /\ y > 0) \/ (x = sep.t /\ IsTag(y))
Fits(u, h, sep) == Len(u) <= Len(h) /\ \A i \in 1..Len(u) : Same(u[i], h[i], sep)
\* what may be left of u after the head of b and any tags
Afters(u, b, sep) ==
  LET h == HeadOf(b)
      n == Len(h)
  IN  IF n > Len(u) \/ ~Fits(SubSeq(u, 1, n), h, sep) THEN {}
      ELSE {Drop(u, k) : k \in {m \in n..Len(u) : \A i \in (n + 1)..m : IsTag(u[i]) /\ u[i] # sep.c}}
Viable(u, B, sep) == \E b \in B : Fits(u, HeadOf(b), sep) \/ \E z \in Afters(u, b, sep) : Fits(z, TailOf(b), sep)
Whole(u, B, sep) == \E b \in B : \E z \in Afters(u, b, sep) : Len(z) = Len(TailOf(b)) /\ Fits(z, TailOf(b), sep)
NoPlus == <<0>>
\* Named deviation of the code: the part before a '+' (or the end of a word) need only be the
\* beginning of something the bidix knows (its '#' part may still come after the last '+').
\* the last symbol (compound marks aside) ends a word: nothing has to follow
EndsWord(a, cmp, sep) ==
  LET b == SelectSeq(a, LAMBDA x : x \notin cmp) IN b # <<>> /\ b[Len(b)] \in sep.wb
RECURSIVE Passes(_, _, _, _, _, _, _)
Passes(a, i, u, pre, B, cmp, sep) ==
  IF i > Len(a) THEN Whole(u, B, sep) \/ (u = <<>> /\ pre # NoPlus /\ EndsWord(a, cmp, sep))
  ELSE IF a[i] \in cmp THEN Passes(a, i + 1, u, pre, B, cmp, sep)
  ELSE LET lit(v, q) == Viable(v, B, sep) /\ Passes(a, i + 1, v, q, B, cmp, sep)
           again == Passes(a, i + 1, <<>>, IF pre = NoPlus THEN u ELSE pre, B, cmp, sep)
       IN  CASE a[i] \in sep.wb -> again
             [] a[i] = 43 -> again \/ lit(u \o <<43>>, pre)
             [] a[i] = 35 /\ pre # NoPlus -> lit(pre \o <<35>>, NoPlus)
             [] OTHER -> lit(u \o <<a[i]>>, pre)
BiFor(name, bi, match) ==
  IF name \in match /\ name \in Names(bi)
  THEN UNION {{t[1] : t \in x[2]} : x \in {y \in bi.secs : y[1] = name}}
  ELSE UNION {{t[1] : t \in x[2]} : x \in {y \in bi.secs : y[1] \notin match}}
NoSep == [t |-> 0, c |-> 0, wb |-> {}]
TrimRel(R, B, cmp, sep) == {t \in R : Passes(t[2], 1, <<>>, NoPlus, B, cmp, sep)}
Trim(dst, m, bi, match, cmp, sep) ==
  PutOrFail(dst, store[m].letters,
            NonEmpty({<<x[1], TrimRel(x[2], BiFor(x[1], store[bi], match), cmp, sep)>> : x \in store[m].secs}))

\* ---- lt-expand: writes text, leaves the store alone ---------------------------------
Expand(dix, opt) ==
  /\ status' = IF XUndefinedPar(dix, opt) THEN "fail" ELSE "ok"
  /\ UNCHANGED store

\* ---- AT&T format: lt-comp reads it, lt-print writes it -------------------------------
AttCompile(dst, lines, opt, tagcps) ==
  LET secs == AttSections(lines, opt, tagcps)
  IN  IF AttRefused(secs, opt) THEN status' = "fail" /\ UNCHANGED store
      ELSE status' = "ok" /\ Put(dst, Bin(AttLetters(lines, opt.hfst, tagcps), secs))
PrintText(a) == status' = "ok" /\ UNCHANGED store
\* ---- copying ---------------------------------
Copy(dst, a) == status' = "ok" /\ Put(dst, store[a])
=============================================================================
