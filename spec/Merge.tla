-------------------------------- MODULE Merge --------------------------------
(* lt-merge: the lexical units from one tagged <MERGE_BEG> to one tagged        *)
(* <MERGE_END> become one unit, whose form is all the text they had; lt-merge   *)
(* -u turns such a unit into plain text again.  A stream is read unit by unit,  *)
(* each with the blank and the word-bound blank before it.                      *)
EXTENDS Lexical
Beg == <<60, 77, 69, 82, 71, 69, 95, 66, 69, 71, 62>>
End == <<60, 77, 69, 82, 71, 69, 95, 69, 78, 68, 62>>
Merged == <<60, 77, 69, 82, 71, 69, 68, 62>>
HasTag(u, t) == \E i \in 1..Len(u.rs) : \E j \in 1..Len(u.rs[i].ps) : u.rs[i].ps[j].k = "tag" /\ u.rs[i].ps[j].raw = t
MarkOf(r) == IF r.mark = 0 THEN <<>> ELSE <<r.mark>>
\* the surface form of a unit is its first part; the mark of an unknown word (^*form$) is not part of it
Surface(u) == (IF Len(u.rs) > 1 THEN MarkOf(u.rs[1]) ELSE <<>>) \o Raw(u.rs[1].ps)
RECURSIVE BlanksEnd(_, _)       \* position of the unit (or end of text) after the blanks that begin at p
BlanksEnd(s, p) == IF p > Len(s) \/ s[p] = 94 THEN p ELSE BlanksEnd(s, BlankPiece(s, p) + 1)
RECURSIVE WBegin(_, _, _)       \* beginning of the word-bound blank that ends just before position e, else e
WBegin(s, p, e) == IF p >= e THEN e
                   ELSE LET n == BlankPiece(s, p) + 1
                        IN  IF n = e /\ s[p] = 91 /\ p < Len(s) /\ s[p + 1] = 91 THEN p ELSE WBegin(s, n, e)
\* the next unit of s after position p - 1: [blank, wblank, unit (none at the end of the text), raw, next]
ItemAt(s, p) ==
  LET e == BlanksEnd(s, p)
  IN  IF e > Len(s) THEN [blank |-> SubSeq(s, p, Len(s)), wblank |-> <<>>, u |-> [rs |-> <<>>], raw |-> <<>>, next |-> Len(s) + 2]
      ELSE LET w == WBegin(s, p, e)
               u == LexUnit(s, e)
           IN  [blank |-> SubSeq(s, p, w - 1), wblank |-> SubSeq(s, w, e - 1), u |-> u, raw |-> SubSeq(s, e, u.next - 1), next |-> u.next]
Close(surf) == <<94>> \o surf \o <<47>> \o surf \o Merged \o <<36>>
\* one step of lt-merge: st = [on (merging), surf]; yields [on, surf, out]
MergeStep(st, it) ==
  LET atEnd == it.u.rs = <<>>
      on == st.on \/ (~atEnd /\ HasTag(it.u, Beg))
      end == atEnd \/ HasTag(it.u, End)
      txt == IF atEnd THEN <<>> ELSE Esc(Surface(it.u))
      inside == st.surf # <<>>
      surf == IF inside THEN st.surf \o Esc(it.blank) \o Esc(it.wblank) \o (IF it.wblank = <<>> THEN <<>> ELSE Esc(<<94, 36>>)) \o txt ELSE txt
      pre == IF on /\ inside THEN <<>> ELSE it.blank \o it.wblank
  IN  IF ~on THEN [on |-> FALSE, surf |-> <<>>, out |-> pre \o it.raw]
      ELSE IF end THEN [on |-> FALSE, surf |-> <<>>, out |-> pre \o Close(surf)]
      ELSE [on |-> TRUE, surf |-> surf, out |-> pre]
RECURSIVE Unescape(_)
Unescape(s) == IF s = <<>> THEN <<>>
               ELSE IF s[1] = 92 THEN (IF Len(s) = 1 THEN <<>> ELSE <<s[2]>> \o Unescape(Drop(s, 2)))
               ELSE <<s[1]>> \o Unescape(Tail(s))
UnmergeOut(it) ==
  it.blank \o it.wblank \o (IF it.u.rs # <<>> /\ HasTag(it.u, Merged) THEN Unescape(Raw(it.u.rs[Len(it.u.rs)].ps)) ELSE it.raw)
\* whole texts
RECURSIVE MergeText(_, _, _)
MergeText(s, p, st) == IF p = Len(s) + 2 THEN <<>>
                       ELSE LET it == ItemAt(s, p)
                                r == MergeStep(st, it)
                            IN  r.out \o MergeText(s, it.next, [on |-> r.on, surf |-> r.surf])
MergeAll(s) == MergeText(s, 1, [on |-> FALSE, surf |-> <<>>])
RECURSIVE UnmergeText(_, _)
UnmergeText(s, p) == IF p = Len(s) + 2 THEN <<>> ELSE LET it == ItemAt(s, p) IN UnmergeOut(it) \o UnmergeText(s, it.next)
UnmergeAll(s) == UnmergeText(s, 1)
\* what a translation pipeline makes of a merged unit before lt-merge -u sees it: ^form<MERGED>/form$
RECURSIVE Generated(_, _)
Generated(s, p) == IF p = Len(s) + 2 THEN <<>>
                   ELSE LET it == ItemAt(s, p)
                            m == it.u.rs # <<>> /\ HasTag(it.u, Merged)
                            f == Raw(it.u.rs[1].ps)
                            k == MarkOf(it.u.rs[1])
                        IN  it.blank \o it.wblank \o (IF m THEN <<94>> \o k \o f \o Merged \o <<47>> \o k \o f \o <<36>> ELSE it.raw) \o Generated(s, it.next)
=============================================================================
