------------------------------ MODULE MCTranslit ------------------------------
(* Design check of postgeneration / transliteration: every text of up to          *)
(* MaxPieces pieces, every rule set of a small family (growing, shrinking,        *)
(* splitting and joining words, rewriting what they have just written).           *)
(* Each behaviour is written out as a GEN line and replayed on the real lt-proc.  *)
EXTENDS Translit
CONSTANTS MaxPieces, Gen
VARIABLES d, text, ws, g, tail, out
vars == <<d, text, ws, g, tail, out>>
None == [lead |-> <<>>, wb |-> <<>>, x |-> <<>>, bl |-> <<>>, sd |-> 0, s |-> -1]
\*          a      b      A      ~      space  [x]             [[t]]a b[[/]]
Pieces == {<<97>>, <<98>>, <<65>>, <<126>>, <<32>>, <<91, 120, 93>>, <<91, 91, 116, 93, 93, 97, 32, 98, 91, 91, 47, 93, 93>>}
R(l, r) == [p |-> [i \in 1..(IF Len(l) > Len(r) THEN Len(l) ELSE Len(r)) |->
                     <<IF i <= Len(l) THEN l[i] ELSE 0, IF i <= Len(r) THEN r[i] ELSE 0>>], w |-> 0]
Dicts ==
  << {R(<<97>>, <<97, 97>>), R(<<97, 98>>, <<98>>)},                                        \* a -> aa, ab -> b
     {R(<<126, 97, 32>>, <<98, 32>>), R(<<98, 32, 97>>, <<99>>)},                           \* ~a_ -> b_, b_a -> c
     {R(<<97, 98>>, <<97, 32, 98>>), R(<<98, 97>>, <<>>), R(<<97, 32>>, <<97>>)},           \* ab -> a_b, ba -> "", a_ -> a
     {R(<<97>>, <<97>>), R(<<98, 32, 98>>, <<98, 32, 32, 98>>), R(<<97, 32, 97, 32, 98>>, <<99>>)} >>
Letters2 == {97, 98}
Texts(n) == UNION {[1..m -> Pieces] : m \in 1..n}
T0(t) == Words(Flat(t), 1)
Init == /\ d \in 1..Len(Dicts)
        /\ text \in Texts(MaxPieces)
        /\ ws = T0(text).ws /\ tail = T0(text).tail
        /\ g = None /\ out = <<>>
Next == \/ /\ g = None /\ ws # <<>> /\ g' = Group(ws[1]) /\ ws' = Tail(ws) /\ UNCHANGED out
           /\ UNCHANGED <<d, text, tail>>
        \/ /\ g # None /\ g.s < Len(g.x)
           /\ IF MatchesAt(g, ws, Dicts[d], FALSE) = {}
              THEN g' = [g EXCEPT !.s = g.s + 1] /\ ws' = ws
              ELSE \E z \in Rewrites(g, ws, Dicts[d], FALSE, Letters2) : g' = z.g /\ ws' = Drop(ws, z.n)
           /\ UNCHANGED <<d, text, tail, out>>
        \/ /\ g # None /\ g.s >= Len(g.x)
           /\ out' = out \o Written(g, TRUE) /\ g' = None
           /\ UNCHANGED <<d, text, ws, tail>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == g = None /\ ws = <<>>
\* ---- what the design guarantees ------------------------------------------------
Count(s, x) == Cardinality({i \in 1..(Len(s) - Len(x) + 1) : StartsAt(s, i, x)})
X == <<91, 120, 93>>
\* every formatting blank comes out exactly once, in front of, inside or right after its word group
BlanksKept == Done => Count(out \o tail, X) = Count(Flat(text), X)
\* word-bound blanks are opened and closed in pairs, and none is lost (they may be merged)
BoundKept == Done => /\ Count(out, <<91, 91, 47, 93, 93>>) = Count(out, <<91, 91, 116>>)
                     /\ (Count(Flat(text), <<91, 91, 116>>) > 0) => Count(out, <<91, 91, 116>>) > 0
\* what is left to do in the text as read always shrinks
Left == LET RECURSIVE Sum(_)
            Sum(w) == IF w = <<>> THEN 0 ELSE 2 + Len(w[1].x) + Sum(Tail(w))
        IN  Sum(ws) + (IF g = None THEN 0 ELSE 1 + Len(g.x) - (IF g.s < Len(g.x) THEN g.s ELSE Len(g.x)))
Shrinks == [][Left' < Left]_vars
Finishes == <>Done
Emit == (Gen /\ Done) => PrintT("GEN " \o ToString(<<d, Flat(text), out \o tail>>))
=============================================================================
