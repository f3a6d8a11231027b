-------------------------------- MODULE Reader --------------------------------
(* Reading the Apertium stream unit by unit (InputFile and StreamReader): the    *)
(* input is a sequence of characters; each step of the reader takes the blanks,  *)
(* an optional word-bound blank and one unit ^...$ off its front, or reaches a   *)
(* null or the end.                                                              *)
EXTENDS Base
\* the state: where the reader is; what the last step found is [blank, wblank, readings, chunk, null, eof]
Nul == 0
AtEnd(s, i) == i > Len(s)
\* a block from its opening character (at i) to the first closing one that is not escaped;
\* an unclosed block ends before a null or at the end
RECURSIVE BlockEnd(_, _, _)
BlockEnd(s, i, close) ==      \* the position after the block whose next character is at i
  IF AtEnd(s, i) \/ s[i] = Nul THEN i
  ELSE IF s[i] = 92 THEN IF AtEnd(s, i + 1) \/ s[i + 1] = Nul THEN i + 1 ELSE BlockEnd(s, i + 2, close)
  ELSE IF s[i] = close THEN i + 1
  ELSE BlockEnd(s, i + 1, close)
RECURSIVE WBlankEnd(_, _)
WBlankEnd(s, i) ==
  IF AtEnd(s, i) \/ s[i] = Nul THEN i
  ELSE IF s[i] = 92 THEN IF AtEnd(s, i + 1) \/ s[i + 1] = Nul THEN i + 1 ELSE WBlankEnd(s, i + 2)
  ELSE IF s[i] = 93 /\ i < Len(s) /\ s[i + 1] = 93 THEN i + 2
  ELSE WBlankEnd(s, i + 1)
WOpen(s, i) == i < Len(s) /\ s[i] = 91 /\ s[i + 1] = 91
RECURSIVE BlankEnd(_, _)
BlankEnd(s, i) ==
  IF AtEnd(s, i) \/ s[i] \in {Nul, 94} \/ WOpen(s, i) THEN i
  ELSE IF s[i] = 91 THEN BlankEnd(s, BlockEnd(s, i + 1, 93))
  ELSE IF s[i] = 92 THEN BlankEnd(s, i + 2)
  ELSE BlankEnd(s, i + 1)
Marks == {42, 64, 35, 61, 37}
\* one reading from i on: [mark, content, symbols (characters and tags), next, chunk]
RECURSIVE ReadReading(_, _, _, _, _)
ReadReading(s, i, content, symbols, chunk) ==
  IF AtEnd(s, i) \/ s[i] \in {Nul, 36, 47} THEN [content |-> content, symbols |-> symbols, next |-> i, chunk |-> chunk]
  ELSE CASE s[i] = 60 -> LET e == BlockEnd(s, i + 1, 62)
                             t == SubSeq(s, i, e - 1)
                         IN  ReadReading(s, e, content \o t, Append(symbols, <<"tag", t>>), chunk)
         [] s[i] = 123 -> LET e == BlockEnd(s, i + 1, 125)
                          IN  ReadReading(s, e, content, symbols, chunk \o SubSeq(s, i, e - 1))
         [] s[i] = 92 -> ReadReading(s, i + 2, content \o SubSeq(s, i, i + 1), Append(symbols, <<"chr", <<s[i + 1]>> >>), chunk)
         [] OTHER -> ReadReading(s, i + 1, Append(content, s[i]), Append(symbols, <<"chr", <<s[i]>> >>), chunk)
RECURSIVE ReadUnit(_, _, _, _)
ReadUnit(s, i, readings, chunk) ==       \* i: after ^ or /
  LET m == IF ~AtEnd(s, i) /\ s[i] \in Marks THEN s[i] ELSE 0
      r == ReadReading(s, IF m = 0 THEN i ELSE i + 1, <<>>, <<>>, chunk)
      rs == Append(readings, [mark |-> m, content |-> r.content, symbols |-> r.symbols])
  IN  IF ~AtEnd(s, r.next) /\ s[r.next] = 47 THEN ReadUnit(s, r.next + 1, rs, r.chunk)
      ELSE [readings |-> rs, chunk |-> r.chunk, null |-> ~AtEnd(s, r.next) /\ s[r.next] = Nul, eof |-> AtEnd(s, r.next), next |-> r.next + 1]
RECURSIVE ReadNext(_, _, _)
ReadNext(s, i, before) ==
  LET b == BlankEnd(s, i)
      blank == before \o SubSeq(s, i, b - 1)
      none == [blank |-> blank, wblank |-> <<>>, readings |-> <<>>, chunk |-> <<>>, null |-> FALSE, eof |-> FALSE, next |-> b + 1]
      unit(w, j) == LET u == ReadUnit(s, j, <<>>, <<>>)
                    IN  [blank |-> blank, wblank |-> w, readings |-> u.readings, chunk |-> u.chunk, null |-> u.null, eof |-> u.eof, next |-> u.next]
  IN  IF AtEnd(s, b) THEN [none EXCEPT !.eof = TRUE]
      ELSE IF s[b] = Nul THEN [none EXCEPT !.null = TRUE]
      ELSE IF s[b] = 94 THEN unit(<<>>, b + 1)
      ELSE LET e == WBlankEnd(s, b + 2)
               w == SubSeq(s, b, e - 1)
           IN  IF ~AtEnd(s, e) /\ s[e] = 94 THEN unit(w, e + 1)
               ELSE ReadNext(s, e, blank \o w)          \* bound to no word: an ordinary blank
=============================================================================
