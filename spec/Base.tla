-------------------------------- MODULE Base --------------------------------
(* Common vocabulary.  A *symbol* is an integer: a positive one is a Unicode  *)
(* code point, a negative one is a tag (multicharacter symbol).  A string is  *)
(* a sequence of symbols.  A (weighted) *relation* is a set of triples        *)
(* <<input string, output string, weight>>; weights are integers (1/1000000). *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC

\* ---- sequences -----------------------------------------------------------
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Take(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
RangeOf(s) == {s[i] : i \in 1..Len(s)}
StartsAt(s, p, t) == /\ p + Len(t) - 1 <= Len(s)
                     /\ \A i \in 1..Len(t) : s[p + i - 1] = t[i]
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
MapSeq(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]
\* split s at every element c satisfying Is(c); yields at least one piece
RECURSIVE SplitOn(_, _)
SplitOn(s, c) ==
  LET ps == {i \in 1..Len(s) : s[i] = c}
  IN  IF ps = {} THEN <<s>>
      ELSE LET p == MinOf(ps) IN <<Take(s, p - 1)>> \o SplitOn(Drop(s, p), c)

\* ---- relations -------------------------------------------------------------
\* the relation keeps, for every pair, its least weight
RelMin(R) == {t \in R : ~ \E u \in R : u[1] = t[1] /\ u[2] = t[2] /\ u[3] < t[3]}
Pairs(R) == {<<t[1], t[2]>> : t \in R}
RelSwap(R) == {<<t[2], t[1], t[3]>> : t \in R}
RelCat(A, B) == {<<a[1] \o b[1], a[2] \o b[2], a[3] + b[3]>> : a \in A, b \in B}
EpsRel == {<<<<>>, <<>>, 0>>}
RelBound(R, n) == {t \in R : Len(t[1]) <= n /\ Len(t[2]) <= n}
RelAdd(R, w) == {<<t[1], t[2], t[3] + w>> : t \in R}

\* ---- characters ------------------------------------------------------------
IsTag(x) == x < 0
\* letter case, over Latin (Basic, Latin-1, Extended-A), Greek, Cyrillic and Deseret, as Unicode has it
EvenUp(c) == c \in 256..303 \/ c \in 306..311 \/ c \in 330..375
OddUp(c) == c \in 313..328 \/ c \in 377..382
IsUpperC(c) == \/ c \in 65..90 \/ (c \in 192..222 /\ c # 215)
               \/ (EvenUp(c) /\ c % 2 = 0) \/ (OddUp(c) /\ c % 2 = 1) \/ c \in {304, 376}
               \/ (c \in 913..937 /\ c # 930)
               \/ c \in 1024..1071 \/ c \in 66560..66599
IsLowerC(c) == \/ c \in 97..122 \/ (c \in 223..255 /\ c # 247) \/ c = 181
               \/ (EvenUp(c) /\ c % 2 = 1) \/ (OddUp(c) /\ c % 2 = 0) \/ c \in {305, 312, 329, 383}
               \/ c \in 945..969
               \/ c \in 1072..1119 \/ c \in 66600..66639
ToLower(c) == IF ~IsUpperC(c) THEN c
              ELSE IF c \in 256..382 THEN (CASE c = 304 -> 105 [] c = 376 -> 255 [] OTHER -> c + 1)
              ELSE IF c \in 1024..1039 THEN c + 80
              ELSE IF c \in 66560..66599 THEN c + 40
              ELSE c + 32
ToUpper(c) == IF ~IsLowerC(c) \/ c \in {223, 312, 329} THEN c
              ELSE IF c \in 256..383 THEN (CASE c = 305 -> 73 [] c = 383 -> 83 [] OTHER -> c - 1)
              ELSE IF c = 181 THEN 924
              ELSE IF c = 255 THEN 376
              ELSE IF c = 962 THEN 931
              ELSE IF c \in 1104..1119 THEN c - 80
              ELSE IF c \in 66600..66639 THEN c - 40
              ELSE c - 32
IsDigitC(c) == c \in 48..57
IsAlnumC(c) == IsUpperC(c) \/ IsLowerC(c) \/ IsDigitC(c) \/ c \in {170, 186, 720}
IsSpaceC(c) == c \in {9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 133, 160}
LowerSeq(s) == MapSeq(s, ToLower)
UpperSeq(s) == MapSeq(s, ToUpper)
=============================================================================
