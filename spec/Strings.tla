------------------------------- MODULE Strings -------------------------------
(* The library's string functions (StringUtils), on strings as sequences of     *)
(* characters (code points), whatever their encoding.                           *)
EXTENDS Base
Space == {32, 9, 10, 13, 8195, 12288}
\* ---- case: the mappings of Unicode for the characters used here --------------------
AsciiL(c) == c \in 97..122
AsciiU(c) == c \in 65..90
Low == (201 :> <<233>>) @@ (452 :> <<454>>) @@ (453 :> <<454>>) @@ (304 :> <<105, 775>>) @@ (66560 :> <<66600>>) @@ (1041 :> <<1073>>)
Up  == (233 :> <<201>>) @@ (223 :> <<83, 83>>) @@ (912 :> <<921, 776, 769>>) @@ (454 :> <<452>>) @@ (453 :> <<452>>)
       @@ (66600 :> <<66560>>) @@ (64259 :> <<70, 70, 73>>) @@ (1073 :> <<1041>>)
Ti  == (223 :> <<83, 115>>) @@ (454 :> <<453>>) @@ (452 :> <<453>>) @@ (453 :> <<453>>) @@ (64259 :> <<70, 102, 105>>)
Fo  == (223 :> <<115, 115>>) @@ (912 :> <<953, 776, 769>>) @@ (64259 :> <<102, 102, 105>>)
At(f, c, d) == IF c \in DOMAIN f THEN f[c] ELSE d
LowerC(c) == IF AsciiU(c) THEN <<c + 32>> ELSE At(Low, c, <<c>>)
UpperC(c) == IF AsciiL(c) THEN <<c - 32>> ELSE At(Up, c, <<c>>)
TitleC(c) == At(Ti, c, UpperC(c))
FoldC(c) == At(Fo, c, LowerC(c))
UpperLetter(c) == AsciiU(c) \/ c \in {201, 452, 304, 66560, 1041}
Lower(s) == FlattenSeq(MapSeq(s, LowerC))
Upper(s) == FlattenSeq(MapSeq(s, UpperC))
Fold(s) == FlattenSeq(MapSeq(s, FoldC))
\* every word (letters up to a space) starts with a capital
Title(s) == FlattenSeq([i \in 1..Len(s) |-> IF i = 1 \/ s[i - 1] \in Space THEN TitleC(s[i]) ELSE LowerC(s[i])])
GetCase(s) == IF s = <<>> \/ ~UpperLetter(s[1]) THEN <<97, 97>>
              ELSE IF Len(s) > 1 /\ UpperLetter(s[Len(s)]) THEN <<65, 65>> ELSE <<65, 97>>
CopyCase(s, t) == IF s = <<>> \/ t = <<>> THEN t
                  ELSE CASE GetCase(s) = <<97, 97>> -> Lower(t)
                         [] GetCase(s) = <<65, 65>> -> Upper(t)
                         [] OTHER -> Title(t)
CaseEqual(s, t) == Fold(s) = Fold(t)
\* ---- pieces ---------------------------------------------------------------------------
RECURSIVE LTrim(_), RTrim(_)
LTrim(s) == IF s # <<>> /\ s[1] \in Space THEN LTrim(Tail(s)) ELSE s
RTrim(s) == IF s # <<>> /\ s[Len(s)] \in Space THEN RTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == LTrim(RTrim(s))
StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
\* the first place at or after i where d begins; Len(s) + 1 if there is none
RECURSIVE FindFrom(_, _, _)
FindFrom(s, d, i) == IF i + Len(d) - 1 > Len(s) THEN Len(s) + 1
                     ELSE IF SubSeq(s, i, i + Len(d) - 1) = d THEN i ELSE FindFrom(s, d, i + 1)
RECURSIVE SplitFrom(_, _, _), SubstFrom(_, _, _, _), EscFrom(_, _, _, _)
SplitFrom(s, d, i) == IF i > Len(s) THEN <<>>
                      ELSE LET f == FindFrom(s, d, i)
                           IN  (IF f > i THEN <<SubSeq(s, i, f - 1)>> ELSE <<>>) \o SplitFrom(s, d, f + Len(d))
Split(s, d) == SplitFrom(s, d, 1)
Join(v, d) == FlattenSeq([i \in 1..Len(v) |-> IF i = 1 THEN v[i] ELSE d \o v[i]])
SubstFrom(s, o, n, i) == LET f == FindFrom(s, o, i)
                         IN  IF f > Len(s) THEN SubSeq(s, i, Len(s))
                             ELSE SubSeq(s, i, f - 1) \o n \o SubstFrom(s, o, n, f + Len(o))
Substitute(s, o, n) == SubstFrom(s, o, n, 1)
\* pieces between delimiters that no backslash precedes; empty pieces do not count
EscFrom(s, d, i, cur) ==
  LET flush == IF cur = <<>> THEN <<>> ELSE <<cur>>
  IN  IF i > Len(s) THEN flush
      ELSE IF s[i] = 92 /\ i < Len(s) THEN EscFrom(s, d, i + 2, cur \o SubSeq(s, i, i + 1))
      ELSE IF s[i] = d THEN flush \o EscFrom(s, d, i + 1, <<>>)
      ELSE EscFrom(s, d, i + 1, Append(cur, s[i]))
SplitEscaped(s, d) == EscFrom(s, d, 1, <<>>)
\* two word-bound blanks as one: [[a]] and [[b]] make [[a; b]]
MergeWB(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a
                 ELSE SubSeq(a, 1, Len(a) - 2) \o <<59, 32>> \o SubSeq(b, 3, Len(b))
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
Itoa(n) == IF n < 0 THEN <<45>> \o Digits(-n) ELSE Digits(n)
\* ---- one call ---------------------------------------------------------------------------
Result(o) ==
  CASE o.op = "trim" -> <<Trim(o.a)>>
    [] o.op = "split" -> Split(o.a, o.b)
    [] o.op = "splitesc" -> SplitEscaped(o.a, o.b[1])
    [] o.op = "join" -> <<Join(o.v, o.b)>>
    [] o.op = "subst" -> <<Substitute(o.a, o.b, o.c)>>
    [] o.op = "lower" -> <<Lower(o.a)>>
    [] o.op = "upper" -> <<Upper(o.a)>>
    [] o.op = "title" -> <<Title(o.a)>>
    [] o.op = "getcase" -> <<GetCase(o.a)>>
    [] o.op = "copycase" -> <<CopyCase(o.a, o.b)>>
    [] o.op = "caseequal" -> <<IF CaseEqual(o.a, o.b) THEN <<49>> ELSE <<48>> >>
    [] o.op = "starts" -> <<IF StartsWith(o.a, o.b) THEN <<49>> ELSE <<48>> >>
    [] o.op = "ends" -> <<IF EndsWith(o.a, o.b) THEN <<49>> ELSE <<48>> >>
    [] o.op = "merge" -> <<MergeWB(o.a, o.b)>>
    [] o.op = "itoa" -> <<Itoa(o.n)>>
    [] o.op = "stoi" -> <<Itoa(o.n)>>
\* ---- guarantees that follow, checked on all short strings (MCStrings) ---------------------
SplitJoin(s, d) == d # <<>> => Split(Join(Split(s, d), d), d) = Split(s, d)
=============================================================================
