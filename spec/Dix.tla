-------------------------------- MODULE Dix --------------------------------
(* The meaning of an XML dictionary (.dix): which relation each section      *)
(* denotes in a given compilation direction, and when it must be rejected.    *)
(* dix = [letters, sdefs (seq of tag ids), pardefs (seq of [n, es]),          *)
(*        sections (seq of [id, type, es])]                                   *)
(* entry = [r, ignore, alt, v, vl, vr, w, els];                               *)
(* element = [t |-> "p", l, r] | [t |-> "i", l] | [t |-> "ig", l]             *)
(*         | [t |-> "par", n] | [t |-> "re", re]                              *)
(* strings in elements may hold the markers below.                            *)
EXTENDS Base

mB == 2000001   \* <b/>  blank
mJ == 2000002   \* <j/>  join
mA == 2000003   \* <a/>  post-generator wake-up mark
mM == 2000004   \* <m/>  morpheme boundary
mG == 2000005   \* <g>   group
\* in dictionaries of the type "separable" only; opt.sep names their tags, in this order
mT == 2000006   \* <t/>  any tags, at least one
mC == 2000007   \* <w/>  any characters, at least one
mD == 2000008   \* <d/>  end of a word
mDs == 2000009  \* <d space="yes"/>
mDn == 2000010  \* <d space="no"/>
mF == 2000011   \* <f/>  separator of readings

\* opt = [dir |-> "LR"/"RL"/"U", alt, v, vl, vr : STRING, keepm : BOOLEAN, max : Nat, acx, ftags : Seq]
RECURSIVE Text(_, _)
Text(s, opt) ==
  IF s = <<>> THEN <<>>
  ELSE (CASE s[1] = mB -> <<32>>
          [] s[1] = mJ -> <<43>>
          [] s[1] = mA -> <<126>>
          [] s[1] = mG -> <<35>>
          [] s[1] = mM -> IF opt.keepm THEN <<62>> ELSE <<>>
          [] s[1] \in mT..mF -> <<opt.sep[s[1] - mT + 1]>>
          [] OTHER -> <<s[1]>>) \o Text(Tail(s), opt)

\* ---- which entries take part ----------------------------------------------
Listed(vals, f, keep) == vals = <<>> \/ (keep /\ f = "") \/ f \in RangeOf(vals)
Kept(e, opt) ==
  /\ e.r = "" \/ e.r = opt.dir
  /\ ~e.ignore
  /\ Listed(e.alt, opt.alt, FALSE)
  /\ Listed(e.v, opt.v, TRUE)
  /\ opt.dir = "RL" => Listed(e.vl, opt.vl, FALSE)
  /\ opt.dir = "LR" => Listed(e.vr, opt.vr, FALSE)

\* ---- regular expressions: the strings of length <= n -----------------------
RECURSIVE Lang(_, _), CatLang(_, _), StarLang(_, _)
CatLang(xs, n) ==
  IF xs = <<>> THEN {<<>>}
  ELSE {a \o b : a \in Lang(xs[1], n), b \in CatLang(Tail(xs), n)}
StarLang(A, n) ==
  LET RECURSIVE It(_, _)
      It(acc, new) ==
        LET nx == {s \in {a \o b : a \in new, b \in A} : Len(s) <= n} \ acc
        IN  IF nx = {} THEN acc ELSE It(acc \cup nx, nx)
  IN  It({<<>>}, {<<>>})
Lang(x, n) ==
  LET L == CASE x.k = "chr"  -> {<<x.c>>}
             [] x.k = "cls"  -> {<<c>> : c \in RangeOf(x.cs)}
             [] x.k = "ncls" -> {<<c>> : c \in (1..255) \ RangeOf(x.cs)}
             [] x.k = "cat"  -> CatLang(x.xs, n)
             [] x.k = "alt"  -> UNION {Lang(x.xs[i], n) : i \in 1..Len(x.xs)}
             [] x.k = "star" -> StarLang(Lang(x.x, n), n)
             [] x.k = "plus" -> LET A == Lang(x.x, n)
                                IN {a \o b : a \in A, b \in StarLang(A, n)}
             [] x.k = "opt"  -> Lang(x.x, n) \cup {<<>>}
  IN {s \in L : Len(s) <= n}

\* ---- entries, paradigms, sections -------------------------------------------
\* pars: function name -> relation (left side first), for the paradigms seen so far
\* equivalent characters (ACX): acx is a sequence of [c, eq]; every occurrence of c on the
\* input side may be read as any character of eq
Equivs(c, acx) == {c} \cup UNION {RangeOf(acx[i].eq) : i \in {j \in 1..Len(acx) : acx[j].c = c}}
RECURSIVE AcxStrings(_, _)
AcxStrings(s, acx) ==
  IF s = <<>> THEN {<<>>}
  ELSE {<<e>> \o r : e \in Equivs(s[1], acx), r \in AcxStrings(Tail(s), acx)}
AcxRel(R, acx) == UNION {{<<i, t[2], t[3]>> : i \in AcxStrings(t[1], acx)} : t \in R}
CompAcx(R, opt) == IF opt.acx = <<>> \/ opt.dir # "LR" THEN R ELSE AcxRel(R, opt.acx)

\* ---- separable dictionaries --------------------------------------------------
\* The sides of a pair are read symbol by symbol next to each other; a wildcard that is read and
\* copied, or read and dropped, stands for one or more symbols (at most n of them are considered).
Separable(opt) == "sep" \in DOMAIN opt /\ opt.sep # <<>>
At(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
Repeats(a, b, opt) ==
  LET x == IF opt.dir = "RL" THEN b ELSE a
      y == IF opt.dir = "RL" THEN a ELSE b
  IN  x \in {opt.sep[1], opt.sep[2]} /\ y \in {x, 0}
Times(c, k) == IF c = 0 THEN <<>> ELSE [j \in 1..k |-> c]
RECURSIVE SepPairs(_, _, _, _)
SepPairs(l, r, i, opt) ==
  IF i > Len(l) /\ i > Len(r) THEN {<< <<>>, <<>> >>}
  ELSE {q \in {<<Times(At(l, i), k) \o x[1], Times(At(r, i), k) \o x[2]>> :
                 k \in IF Repeats(At(l, i), At(r, i), opt) THEN 1..(opt.max + 1) ELSE {1},
                 x \in SepPairs(l, r, i + 1, opt)} : Len(q[1]) <= opt.max + 1 /\ Len(q[2]) <= opt.max + 1}
SepRel(l, r, opt) == {<<q[1], q[2], 0>> : q \in SepPairs(l, r, 1, opt)}
\* every path may end in the end of a word, whether the dictionary says so or not
WithEnd(R, opt) == IF Separable(opt) THEN RelMin(R \cup RelCat(R, {<<<<opt.sep[3]>>, <<opt.sep[3]>>, 0>>})) ELSE R

Pair(l, r, opt) == IF Separable(opt) THEN SepRel(l, r, opt) ELSE CompAcx({<<l, r, 0>>}, opt)
ElRel(el, pars, opt) ==
  CASE el.t = "p"   -> Pair(Text(el.l, opt), Text(el.r, opt), opt)
    [] el.t = "i"   -> Pair(Text(el.l, opt), Text(el.l, opt), opt)
    [] el.t = "ig"  -> CompAcx({<<Text(el.l, opt), <<35>> \o Text(el.l, opt), 0>>}, opt)
    [] el.t = "re"  -> {<<s, s, 0>> : s \in Lang(el.re, opt.max)}
    [] el.t = "par" -> pars[el.n]

\* only regular expressions make relations infinite: pairs longer than opt.max on both sides are
\* not followed further, except those that begin with a blank (they matter for rejection)
Follow(R, n) == {t \in R : Len(t[1]) <= n \/ Len(t[2]) <= n \/ t[1][1] = 32 \/ t[2][1] = 32}
ElsRel(els, pars, opt) ==
  FoldLeft(LAMBDA acc, el : Follow(RelCat(acc, ElRel(el, pars, opt)), opt.max), EpsRel, els)

\* unified compilation ("u") keeps every entry and marks it, on both sides, with one tag per
\* restriction; opt.ftags is a sequence of [id, kind, val] naming those tags
FTag(kind, val, opt) ==
  LET i == CHOOSE j \in 1..Len(opt.ftags) : opt.ftags[j].kind = kind /\ opt.ftags[j].val = val
  IN  opt.ftags[i].id
Marks(kind, vals, opt) ==
  IF vals = <<>> THEN EpsRel
  ELSE {<<<<FTag(kind, v, opt)>>, <<FTag(kind, v, opt)>>, 0>> : v \in RangeOf(vals)}
EntryMarks(e, opt) ==
  RelCat(RelCat(RelCat(RelCat(Marks("r", IF e.r = "" THEN <<>> ELSE <<e.r>>, opt),
                              Marks("alt", e.alt, opt)),
                       Marks("v", e.v, opt)),
                Marks("vl", e.vl, opt)),
         Marks("vr", e.vr, opt))
Taken(e, opt) == IF opt.dir = "U" THEN ~e.ignore ELSE Kept(e, opt)
EntryRel(e, pars, opt) ==
  IF ~Taken(e, opt) \/ e.els = <<>> THEN {}
  ELSE IF opt.dir = "U" THEN RelAdd(RelCat(EntryMarks(e, opt), ElsRel(e.els, pars, opt)), e.w)
  ELSE RelAdd(ElsRel(e.els, pars, opt), e.w)
EntriesRel(es, pars, opt) ==
  RelMin(UNION {EntryRel(es[i], pars, opt) : i \in 1..Len(es)})

NoPars == [x \in {} |-> {}]
Pars(dix, opt) ==
  FoldLeft(LAMBDA acc, p : (p.n :> EntriesRel(p.es, acc, opt)) @@ acc, NoPars, dix.pardefs)

SecName(s) == s.id \o "@" \o s.type
\* left-to-right relation of every section that holds at least one entry
LeftRels(dix, opt) ==
  LET ps == Pars(dix, opt)
      names == {SecName(s) : s \in RangeOf(dix.sections)}
      rel(n) == WithEnd(RelMin(UNION {EntriesRel(s.es, ps, opt) : s \in {x \in RangeOf(dix.sections) : SecName(x) = n}}), opt)
  IN  {<<n, rel(n)>> : n \in {m \in names : rel(m) # {}}}

DixSectionsAll(dix, opt) ==
  LET L == LeftRels(dix, opt)
  IN  IF opt.dir # "RL" THEN L ELSE {<<x[1], RelSwap(x[2])>> : x \in L}

Bounded(secs, n) ==
  {<<x[1], RelBound(x[2], n)>> : x \in {y \in secs : RelBound(y[2], n) # {}}}
DixSections(dix, opt) == Bounded(DixSectionsAll(dix, opt), opt.max)

\* ---- rejection --------------------------------------------------------------

UsedTags(s) == {c \in RangeOf(s) : IsTag(c)}
ElTags(el) == CASE el.t = "p" -> UsedTags(el.l) \cup UsedTags(el.r)
                [] el.t \in {"i", "ig"} -> UsedTags(el.l)
                [] OTHER -> {}
EntryTags(e) == UNION {ElTags(e.els[i]) : i \in 1..Len(e.els)}
\* tags in entries that are compiled must be declared
UndefinedTag(dix, opt) ==
  LET all == FoldLeft(LAMBDA acc, x : acc \o x.es, <<>>, dix.pardefs \o dix.sections)
  IN  \E i \in 1..Len(all) : Taken(all[i], opt) /\ ~ (EntryTags(all[i]) \subseteq RangeOf(dix.sdefs))
\* a paradigm may only use paradigms defined before it (and not itself)
UndefinedPar(dix, opt) ==
  LET refs(es) == {es[i].els[j].n : <<i, j>> \in {<<a, b>> \in (1..Len(es)) \X (1..20) :
                        Taken(es[a], opt) /\ b <= Len(es[a].els) /\ es[a].els[b].t = "par"}}
      before(k) == {dix.pardefs[m].n : m \in 1..(k - 1)}
      allp == {dix.pardefs[m].n : m \in 1..Len(dix.pardefs)}
  IN  \/ \E k \in 1..Len(dix.pardefs) : ~ (refs(dix.pardefs[k].es) \subseteq before(k))
      \/ \E s \in RangeOf(dix.sections) : ~ (refs(s.es) \subseteq allp)
BadSide(secs) ==
  \E x \in secs : \E t \in x[2] : t[1] = <<>> \/ t[1][1] = 32

\* ---- lt-expand ----------------------------------------------------------------
\* The dictionary as text: one line per pair, marked with the direction it is restricted to.
\* A combination is as restricted as the most restricted of its parts.
XSpecial == {94, 36, 47, 60, 62, 123, 125, 92, 42, 64, 35, 43, 126, 58}
RECURSIVE XText(_, _, _)
XText(s, opt, tagcps) ==
  IF s = <<>> THEN <<>>
  ELSE (IF s[1] < 0 THEN tagcps[-s[1]]
        ELSE IF s[1] >= mB THEN Text(<<s[1]>>, opt)
        ELSE IF s[1] \in XSpecial THEN <<92, s[1]>> ELSE <<s[1]>>) \o XText(Tail(s), opt, tagcps)
RECURSIVE XRegexp(_)
XRegexp(s) ==
  IF s = <<>> THEN <<>>
  ELSE IF s[1] = 92 THEN Take(s, 2) \o XRegexp(Drop(s, 2))
  ELSE (IF s[1] \in XSpecial THEN <<92, s[1]>> ELSE <<s[1]>>) \o XRegexp(Tail(s))
XRegexpMark == <<95, 95, 82, 69, 71, 69, 88, 80, 95, 95>>
\* the directions an entry takes part in.  Named deviation from lt-comp: an entry of another
\* variant (v) is still listed for analysis.
XDirs(e, opt) ==
  IF e.ignore \/ ~Listed(e.alt, opt.alt, FALSE) THEN {}
  ELSE {d \in {"LR", "RL"} :
          /\ e.r = "" \/ e.r = d
          /\ d = "LR" => Listed(e.vr, opt.vr, FALSE)
          /\ d = "RL" => (Listed(e.vl, opt.vl, FALSE) /\ Listed(e.v, opt.v, FALSE))}
XEl(el, pars, opt, tagcps) ==
  LET both == {"LR", "RL"}
  IN  CASE el.t = "p"   -> {<<XText(el.l, opt, tagcps), XText(el.r, opt, tagcps), both>>}
        [] el.t = "i"   -> {<<XText(el.l, opt, tagcps), XText(el.l, opt, tagcps), both>>}
        [] el.t = "ig"  -> {<<XText(el.l, opt, tagcps), <<35>> \o XText(el.l, opt, tagcps), both>>}
        [] el.t = "re"  -> {<<XRegexpMark \o XRegexp(el.src), XRegexpMark \o XRegexp(el.src), both>>}
        [] el.t = "par" -> pars[el.n]
XCat(A, B) == {t \in {<<a[1] \o b[1], a[2] \o b[2], a[3] \cap b[3]>> : a \in A, b \in B} : t[3] # {}}
XEntry(e, pars, opt, tagcps) ==
  IF e.els = <<>> \/ XDirs(e, opt) = {} THEN {}
  ELSE FoldLeft(LAMBDA acc, el : XCat(acc, XEl(el, pars, opt, tagcps)), {<<<<>>, <<>>, XDirs(e, opt)>>}, e.els)
XEntries(es, pars, opt, tagcps) == UNION {XEntry(es[i], pars, opt, tagcps) : i \in 1..Len(es)}
XPars(dix, opt, tagcps) ==
  FoldLeft(LAMBDA acc, p : (p.n :> XEntries(p.es, acc, opt, tagcps)) @@ acc, NoPars, dix.pardefs)
XPairs(dix, opt, tagcps) ==
  LET ps == XPars(dix, opt, tagcps)
  IN  UNION {XEntries(s.es, ps, opt, tagcps) : s \in RangeOf(dix.sections)}
XLine(t) == t[1] \o (IF t[3] = {"LR", "RL"} THEN <<58>> ELSE IF t[3] = {"LR"} THEN <<58, 62, 58>> ELSE <<58, 60, 58>>) \o t[2]
XLines(dix, opt, tagcps) == {XLine(t) : t \in XPairs(dix, opt, tagcps)}
\* a paradigm used before it is defined, in an entry that takes part
XUndefinedPar(dix, opt) ==
  LET refs(es) == {es[i].els[j].n : <<i, j>> \in {<<a, b>> \in (1..Len(es)) \X (1..20) :
                        XDirs(es[a], opt) # {} /\ b <= Len(es[a].els) /\ es[a].els[b].t = "par"}}
      before(k) == {dix.pardefs[m].n : m \in 1..(k - 1)}
      allp == {dix.pardefs[m].n : m \in 1..Len(dix.pardefs)}
  IN  \/ \E k \in 1..Len(dix.pardefs) : ~ (refs(dix.pardefs[k].es) \subseteq before(k))
      \/ \E s \in RangeOf(dix.sections) : ~ (refs(s.es) \subseteq allp)
=============================================================================
