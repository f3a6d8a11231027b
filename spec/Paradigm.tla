------------------------------- MODULE Paradigm -------------------------------
(* lt-paradigm: the pairs of a dictionary whose analysis matches a pattern.       *)
(* A pattern is a sequence of [t, c, ts]: a character or a tag (c); "star": any   *)
(* letters; "anytag": any tags but the excluded ones; "only": any of the tags ts, *)
(* any number of times; "but": any tags but the excluded ones and ts; "or": one   *)
(* of the tags ts.                                                                *)
EXTENDS Base
ParOne(e, x, letters, excl) ==
  CASE e.t = "lit" -> x = e.c
    [] e.t = "or" -> x \in RangeOf(e.ts)
    [] e.t = "star" -> x > 0 /\ x \in letters
    [] e.t = "anytag" -> IsTag(x) /\ x \notin excl
    [] e.t = "only" -> x \in RangeOf(e.ts)
    [] e.t = "but" -> IsTag(x) /\ x \notin excl /\ x \notin RangeOf(e.ts)
Repeats(e) == e.t \in {"star", "anytag", "only", "but"}
RECURSIVE ParMatches(_, _, _, _)
ParMatches(pat, s, letters, excl) ==
  IF pat = <<>> THEN s = <<>>
  ELSE IF Repeats(pat[1])
  THEN \/ ParMatches(Tail(pat), s, letters, excl)
       \/ s # <<>> /\ ParOne(pat[1], s[1], letters, excl) /\ ParMatches(pat, Tail(s), letters, excl)
  ELSE s # <<>> /\ ParOne(pat[1], s[1], letters, excl) /\ ParMatches(Tail(pat), Tail(s), letters, excl)
Spelt(s, tagcps) == Flat([i \in 1..Len(s) |-> IF IsTag(s[i]) THEN tagcps[-s[i]] ELSE <<s[i]>>])
\* the lines analysis:surface; the analysis is the right side (-a) or the left one
ParListed(R, letters, pat, analyser, excl, tagcps) ==
  {Spelt(IF analyser THEN t[2] ELSE t[1], tagcps) \o <<58>> \o Spelt(IF analyser THEN t[1] ELSE t[2], tagcps) :
     t \in {x \in R : x[1] # <<>> /\ x[2] # <<>> /\ ParMatches(pat, IF analyser THEN x[2] ELSE x[1], letters, excl)}}
RECURSIVE Less(_, _)
Less(a, b) == IF a = <<>> THEN b # <<>> ELSE b # <<>> /\ (a[1] < b[1] \/ (a[1] = b[1] /\ Less(Tail(a), Tail(b))))
\* order of two lines: the part before the first ':', then the rest (texts have no ':')
Colon(x) == MinOf({i \in 1..Len(x) : x[i] = 58})
ParLess(x, y) == LET a == Take(x, Colon(x) - 1)
                     b == Take(y, Colon(y) - 1)
                 IN  Less(a, b) \/ (a = b /\ Less(Drop(x, Colon(x)), Drop(y, Colon(y))))
=============================================================================
