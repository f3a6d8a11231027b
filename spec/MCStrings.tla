------------------------------ MODULE MCStrings ------------------------------
(* The string functions keep their promises to each other on all short strings. *)
EXTENDS Strings
CONSTANTS Letters, MaxLen
VARIABLES s, t
MInit == s = <<>> /\ t = <<>>
MNext == \/ Len(s) < MaxLen /\ \E c \in Letters : s' = Append(s, c) /\ t' = t
         \/ Len(t) < 2 /\ \E c \in Letters : t' = Append(t, c) /\ s' = s
MSpec == MInit /\ [][MNext]_<<s, t>>
Pieces == t # <<>> => LET p == Split(s, t)
                      IN  /\ \A i \in 1..Len(p) : p[i] # <<>> /\ FindFrom(p[i], t, 1) > Len(p[i])
                          /\ Split(Join(p, t), t) = p
                          /\ Substitute(s, t, t) = s
                          /\ FindFrom(Substitute(s, t, <<122>>), t, 1) > Len(Substitute(s, t, <<122>>)) \/ 122 \in RangeOf(t)
Trimmed == LET u == Trim(s) IN u = Trim(u) /\ FindFrom(s, u, 1) <= Len(s) + 1
                               /\ (u # <<>> => u[1] \notin Space /\ u[Len(u)] \notin Space)
Cased == /\ Lower(Lower(s)) = Lower(s)
         /\ Upper(Upper(s)) = Upper(s)
         /\ CaseEqual(s, Upper(s)) /\ CaseEqual(s, Lower(s))
         /\ CaseEqual(s, CopyCase(t, s))
Edges == \A i \in 0..Len(s) : StartsWith(s, SubSeq(s, 1, i)) /\ EndsWith(s, SubSeq(s, i + 1, Len(s)))
=============================================================================
