------------------------------- MODULE MCMerge -------------------------------
(* Design check of lt-merge: every stream of up to MaxItems units, read step by  *)
(* step; every behaviour is written out as a GEN line and replayed on lt-merge   *)
(* and lt-merge -u.                                                              *)
EXTENDS Merge
CONSTANTS MaxItems, Gen
VARIABLES text, p, st, out, plain
vars == <<text, p, st, out, plain>>
\* blanks: none, " ", "[\]]", "\^", "[[t:b]]", " [[t]]"
Blanks == {<<>>, <<32>>, <<91, 92, 93, 93>>, <<92, 94>>, <<91, 91, 116, 58, 98, 93, 93>>, <<32, 91, 91, 116, 93, 93>>}
Tags == {<<>>, Beg, End, Beg \o End}
\* forms: a, \[, %   (each unit ^form/b<tags>$)
Forms == {<<97>>, <<92, 91>>, <<37>>}
Units == {<<94>> \o f \o <<47, 98>> \o t \o <<36>> : f \in Forms, t \in Tags}
Odd == {<<94, 36>>, <<94, 42, 97, 36>>}      \* ^$ and ^*a$
Items == {b \o u : b \in Blanks, u \in Units} \union {b \o u : b \in {<<>>, <<32>>}, u \in Odd} \union {<<32>>, <<92, 94>>}
Texts(n) == UNION {[1..m -> Items] : m \in 0..n}
None == [on |-> FALSE, surf |-> <<>>]
Init == /\ text \in {Flat(t) : t \in Texts(MaxItems)}
        /\ p = 1 /\ st = None /\ out = <<>> /\ plain = <<>>
Step == /\ p <= Len(text) + 1
        /\ LET it == ItemAt(text, p)
               r == MergeStep(st, it)
               u == it.u.rs # <<>>
               beg == u /\ HasTag(it.u, Beg)
           IN  /\ p' = it.next
               /\ st' = [on |-> r.on, surf |-> r.surf]
               /\ out' = out \o r.out
               \* the text a reader should see after unmerging, said directly
               /\ plain' = plain \o it.blank \o it.wblank
                           \o (IF st.on \/ beg
                               THEN (IF it.wblank # <<>> /\ st.surf # <<>> THEN <<94, 36>> ELSE <<>>) \o (IF u THEN Surface(it.u) ELSE <<>>)
                               ELSE it.raw)
               /\ text' = text
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)
Done == p = Len(text) + 2
Clean == [][out' # out => Take(out', Len(out)) = out]_vars      \* what has been written stays
\* nothing is lost, nothing is added: unmerging gives the text of the stream back
\* (a merged form that begins with a character that looks like a mark loses it)
MarkFirst == \E i \in 1..(Len(out) - 1) : out[i] = 94 /\ out[i + 1] \in Marks /\ (i = 1 \/ out[i - 1] # 92)
Restores == (Done /\ ~MarkFirst) => UnmergeAll(Generated(out, 1)) = plain
\* no unit of the output still asks for a merge that was done
NoneLeft == (Done /\ ~st.on) => \A i \in 1..Len(out) : ~StartsAt(out, i, Beg)
Finishes == <>Done
Emit == (Gen /\ Done) => PrintT("GEN " \o ToString(<<text, out, Generated(out, 1), UnmergeAll(Generated(out, 1))>>))
=============================================================================
