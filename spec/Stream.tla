------------------------------- MODULE Stream -------------------------------
(* The text streams lt-proc reads and writes, as sequences of code points.    *)
EXTENDS Base

Special == {91, 93, 123, 125, 94, 36, 47, 92, 64, 60, 62}   \* [ ] { } ^ $ / \ @ < >
RECURSIVE Esc(_)
Esc(s) == IF s = <<>> THEN <<>>
          ELSE (IF s[1] \in Special THEN <<92, s[1]>> ELSE <<s[1]>>) \o Esc(Tail(s))

\* index of the ']' closing the blank that begins at i (s[i] = '['), 0 if it is not closed
RECURSIVE CloseBlank(_, _)
CloseBlank(s, i) == IF i > Len(s) THEN 0
                    ELSE IF s[i] = 92 THEN CloseBlank(s, i + 2)
                    ELSE IF s[i] = 93 THEN i
                    ELSE CloseBlank(s, i + 1)
RECURSIVE CloseWBlank(_, _)
CloseWBlank(s, i) == IF i + 1 > Len(s) THEN 0
                     ELSE IF s[i] = 92 THEN CloseWBlank(s, i + 2)
                     ELSE IF s[i] = 93 /\ s[i + 1] = 93 THEN i + 1
                     ELSE CloseWBlank(s, i + 1)
BlankEnd(s, i) == IF i < Len(s) /\ s[i + 1] = 91 THEN CloseWBlank(s, i + 2) ELSE CloseBlank(s, i + 1)

\* ---- plain text (input of analysis): sequence of <<character, blank>> ---------
\* a blank token is <<32, its text>>, any other token <<c, <<>>>>
Bad == <<<<0, <<>>>>>>
RECURSIVE LexText(_, _)
LexText(s, ign) ==
  IF s = <<>> THEN <<>>
  ELSE LET c == s[1]
       IN  CASE c \in ign -> LexText(Tail(s), ign)
             [] c = 92 /\ Len(s) > 1 -> <<<<s[2], IF s[2] = 32 THEN <<32>> ELSE <<>>>>>> \o LexText(Drop(s, 2), ign)
             [] c = 91 -> LET e == BlankEnd(s, 1)
                          IN  IF e = 0 THEN <<<<32, s>>>>     \* not closed: the rest is a blank
                              ELSE <<<<32, Take(s, e)>>>> \o LexText(Drop(s, e), ign)
             [] c \in Special -> Bad
             [] c = 32 -> <<<<32, <<32>>>>>> \o LexText(Tail(s), ign)
             [] OTHER -> <<<<c, <<>>>>>> \o LexText(Tail(s), ign)
WellFormed(ts) == \A i \in 1..Len(ts) : ts[i][1] # 0
Chars(ts) == [i \in 1..Len(ts) |-> ts[i][1]]
=============================================================================
