--------------------------------- MODULE Cli ---------------------------------
(* How the tools are called.  The arguments are scanned from left to right:      *)
(* options (short ones alone, joined or with their value attached; long ones,     *)
(* possibly abbreviated, with = or with the value in the next argument) may stand *)
(* anywhere among the files, and -- ends them.  What is scanned is a request; two *)
(* calls that make the same request have the same result, wherever the inputs     *)
(* come from and the output goes; calls that make none are refused.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Ch(s, i) == SubSeq(s, i, i)
From(s, i) == SubSeq(s, i, Len(s))
B(s, l) == [s |-> s, l |-> l, arg |-> FALSE]
V(s, l) == [s |-> s, l |-> l, arg |-> TRUE]
Help == B("h", "help")
Variants == {V("v", "var"), V("a", "alt"), V("l", "var-left"), V("r", "var-right")}
\* the options of every tool, the least number of files, and what each file is: a word, the path of a source,
\* a compiled dictionary ("-": standard input), a text, the output
Tools ==
  "lt-proc" :> [opts |-> {B("a", "analysis"), B("b", "bilingual"), B("c", "case-sensitive"), B("d", "debugged-gen"), B("e", "decompose-nouns"),
                          B("g", "generation"), V("i", "ignored-chars"), V("r", "restore-chars"), B("l", "tagged-gen"), B("m", "tagged-nm-gen"),
                          B("n", "non-marked-gen"), B("o", "surf-bilingual"), B("O", "surf-bilingual-keep"), B("p", "post-generation"),
                          B("x", "inter-generation"), B("s", "sao"), B("t", "transliteration"), B("v", "version"), B("z", "null-flush"),
                          B("w", "dictionary-case"), B("C", "careful-case"), B("I", "no-default-ignore"), B("W", "show-weights"),
                          V("N", "analyses"), V("L", "weight-classes"), V("M", "compound-max-elements"), Help},
                min |-> 1, files |-> <<"bin", "text", "out">>]
  @@ "lt-comp" :> [opts |-> Variants \cup {B("d", "debug"), B("m", "keep-boundaries"), B("H", "hfst"), B("S", "no-split"), B("j", "jobs"), B("V", "verbose"), Help},
                   min |-> 3, files |-> <<"word", "source", "out", "source">>]
  @@ "lt-expand" :> [opts |-> Variants \cup {B("m", "keep-boundaries")}, min |-> 1, files |-> <<"source", "out">>]
  @@ "lt-print" :> [opts |-> {B("a", "alpha"), B("H", "hfst"), Help}, min |-> 0, files |-> <<"bin", "out">>]
  @@ "lt-append" :> [opts |-> {B("k", "keep"), B("s", "single"), Help}, min |-> 1, files |-> <<"bin", "bin", "out">>]
  @@ "lt-invert" :> [opts |-> {Help}, min |-> 0, files |-> <<"bin", "out">>]
  @@ "lt-compose" :> [opts |-> {B("i", "inverted"), B("a", "anywhere")}, min |-> 1, files |-> <<"bin", "bin", "out">>]
  @@ "lt-trim" :> [opts |-> {V("s", "match-section")}, min |-> 1, files |-> <<"bin", "bin", "out">>]
  @@ "lt-restrict" :> [opts |-> Variants \cup {B("m", "minimise")}, min |-> 1, files |-> <<"word", "bin", "out">>]
  @@ "lt-merge" :> [opts |-> {B("u", "unmerge"), B("z", "null-flush"), Help}, min |-> 0, files |-> <<"text", "out">>]
  @@ "lt-paradigm" :> [opts |-> {B("a", "analyser"), V("e", "exclude"), B("s", "sort"), B("z", "null-flush"), Help}, min |-> 1, files |-> <<"bin", "text", "out">>]
  @@ "lt-apply-acx" :> [opts |-> {}, min |-> 1, files |-> <<"bin", "source", "out">>]

\* ---- scanning: p = [i: next argument, st, bools, strs: sequence of <<option, value>>, files] -----------------
Start == [i |-> 1, st |-> "scan", bools |-> {}, strs |-> <<>>, files |-> <<>>]
Bad(p) == [p EXCEPT !.st = "usage"]
Set(p, o) == IF o.l = "version" THEN [p EXCEPT !.st = "version"]
             ELSE IF o.l = "help" THEN [p EXCEPT !.st = "help"]
             ELSE [p EXCEPT !.bools = @ \cup {o.l}]
Val(p, o, v) == [p EXCEPT !.strs = Append(@, <<o.l, v>>)]
RECURSIVE Cluster(_, _, _, _)       \* the letters of a short argument, from the c-th
Cluster(T, toks, p, c) ==
  LET t == toks[p.i]
      F == {o \in T.opts : o.s = Ch(t, c)}
      o == CHOOSE x \in F : TRUE
  IN  IF c > Len(t) THEN [p EXCEPT !.i = p.i + 1]
      ELSE IF F = {} THEN Bad(p)
      ELSE IF ~o.arg THEN LET q == Set(p, o) IN IF q.st = "scan" THEN Cluster(T, toks, q, c + 1) ELSE q
      ELSE IF c < Len(t) THEN [Val(p, o, From(t, c + 1)) EXCEPT !.i = p.i + 1]
      ELSE IF p.i < Len(toks) THEN [Val(p, o, toks[p.i + 1]) EXCEPT !.i = p.i + 2]
      ELSE Bad(p)
Long(T, toks, p) ==
  LET t == toks[p.i]
      eqs == {c \in 3..Len(t) : Ch(t, c) = "="}
      e == IF eqs = {} THEN 0 ELSE CHOOSE c \in eqs : \A d \in eqs : c <= d
      name == SubSeq(t, 3, IF e = 0 THEN Len(t) ELSE e - 1)
      begins == {o \in T.opts : Len(name) <= Len(o.l) /\ SubSeq(o.l, 1, Len(name)) = name}
      F == IF \E o \in begins : o.l = name THEN {o \in begins : o.l = name} ELSE begins
      o == CHOOSE x \in F : TRUE
  IN  IF Cardinality(F) # 1 THEN Bad(p)               \* unknown, or short for several
      ELSE IF ~o.arg THEN IF e # 0 THEN Bad(p) ELSE LET q == Set(p, o) IN [q EXCEPT !.i = p.i + 1]
      ELSE IF e # 0 THEN [Val(p, o, From(t, e + 1)) EXCEPT !.i = p.i + 1]
      ELSE IF p.i < Len(toks) THEN [Val(p, o, toks[p.i + 1]) EXCEPT !.i = p.i + 2]
      ELSE Bad(p)
ScanStep(T, toks, p) ==
  IF p.i > Len(toks)
  THEN [p EXCEPT !.st = IF Len(p.files) < T.min \/ Len(p.files) > Len(T.files) THEN "usage" ELSE "request"]
  ELSE LET t == toks[p.i] IN
       IF t = "--" THEN [p EXCEPT !.files = @ \o SubSeq(toks, p.i + 1, Len(toks)), !.i = Len(toks) + 1]
       ELSE IF Len(t) > 2 /\ SubSeq(t, 1, 2) = "--" THEN Long(T, toks, p)
       ELSE IF Len(t) > 1 /\ Ch(t, 1) = "-" THEN Cluster(T, toks, p, 2)
       ELSE [p EXCEPT !.files = Append(@, t), !.i = p.i + 1]
RECURSIVE ScanAll(_, _, _)
ScanAll(T, toks, p) == IF p.st # "scan" THEN p ELSE ScanAll(T, toks, ScanStep(T, toks, p))
Scan(T, toks) == ScanAll(T, toks, Start)

\* ---- what a request means -----------------------------------------------------------------------------------
Last(p, l) == LET X == {n \in 1..Len(p.strs) : p.strs[n][1] = l}
              IN  IF X = {} THEN "" ELSE p.strs[CHOOSE n \in X : \A m \in X : m <= n][2]
All(p, l) == {p.strs[n][2] : n \in {m \in 1..Len(p.strs) : p.strs[m][1] = l}}
Has(p, l) == l \in p.bools
\* the processing mode of lt-proc: at most one of these, and -g goes with -b
Mode(p) ==
  LET bil == Has(p, "bilingual") \/ Has(p, "surf-bilingual") \/ Has(p, "surf-bilingual-keep")
      trl == Has(p, "inter-generation") \/ Has(p, "transliteration")
      M == (IF Has(p, "analysis") THEN {"analysis"} ELSE {}) \cup (IF bil THEN {"bilingual"} ELSE {})
           \cup (IF Has(p, "generation") /\ ~bil THEN {"generation"} ELSE {}) \cup (IF Has(p, "decompose-nouns") THEN {"compounds"} ELSE {})
           \cup (IF Has(p, "post-generation") THEN {"postgeneration"} ELSE {}) \cup (IF trl THEN {"transliteration"} ELSE {})
           \cup (IF Has(p, "sao") THEN {"sao"} ELSE {})
      \* how to mark what is not known: the last of these that is given
      G == CASE Has(p, "careful-case") -> "careful" [] Has(p, "non-marked-gen") -> "clean" [] Has(p, "tagged-nm-gen") -> "tagged-nm"
             [] Has(p, "tagged-gen") -> "tagged" [] Has(p, "debugged-gen") -> "all"
             [] Has(p, "generation") /\ bil -> "bilgen" [] OTHER -> "plain"
      m == IF M = {} THEN (IF G = "plain" THEN "analysis" ELSE "generation") ELSE CHOOSE x \in M : TRUE
  IN  IF Cardinality(M) > 1 THEN <<"none">>
      ELSE IF m \in {"generation", "bilingual"} THEN <<m, G, Has(p, "surf-bilingual"), Has(p, "surf-bilingual-keep")>> ELSE <<m>>
Counts == {"analyses", "weight-classes", "compound-max-elements"}
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
RECURSIVE Number(_, _)              \* the number a string begins with, 0 when there is none
Number(s, n) == IF s = "" \/ Ch(s, 1) \notin Digits THEN n
                ELSE Number(From(s, 2), n * 10 + (CHOOSE d \in 0..9 : ToString(d) = Ch(s, 1)))
File(p, n) == IF n > Len(p.files) THEN "" ELSE p.files[n]
NoFile(x) == x = "" \/ x = "-"
FromStdin(T, p, n) == (T.files[n] = "bin" /\ NoFile(File(p, n))) \/ (T.files[n] = "text" /\ File(p, n) = "")
\* the content read as the n-th file: that of the file, or standard input
Input(T, p, n, contents, stdin) ==
  LET x == File(p, n) IN
  IF T.files[n] = "word" THEN x
  ELSE IF FromStdin(T, p, n) THEN stdin
  ELSE IF T.files[n] = "source" /\ n > T.min /\ x = "" THEN ""
  ELSE IF x \in DOMAIN contents THEN contents[x] ELSE "none"
OutAt(T) == CHOOSE n \in 1..Len(T.files) : T.files[n] = "out"
\* nothing is said about two inputs from standard input, about words lt-restrict does not know, sources or texts called "-"
\* or "", nor about giving lt-comp and lt-expand the same setting twice
Undefined(tool, p) ==
  LET T == Tools[tool] IN
  \/ Cardinality({n \in 1..Len(T.files) : FromStdin(T, p, n)}) > 1
  \/ \E n \in 1..Len(p.files) : n <= Len(T.files) /\ (\/ T.files[n] \in {"source", "text"} /\ NoFile(p.files[n])
                                                      \/ T.files[n] \in {"bin", "out"} /\ p.files[n] = "")
  \/ tool = "lt-restrict" /\ File(p, 1) \notin {"lr", "rl"}
  \/ tool \in {"lt-comp", "lt-expand"} /\ \E a, b \in 1..Len(p.strs) : a # b /\ p.strs[a][1] = p.strs[b][1]
\* refused: no request, or one that nothing can be done for
Refused(tool, p, contents, stdin) ==
  LET T == Tools[tool] IN
  \/ p.st # "request"
  \/ \E n \in 1..Len(T.files) : T.files[n] \in {"bin", "text"} /\ Input(T, p, n, contents, stdin) = "none"
  \/ \E n \in 1..Len(T.files) : T.files[n] = "source" /\ n <= T.min /\ Input(T, p, n, contents, stdin) = "none"
  \/ tool = "lt-proc" /\ (Mode(p) = <<"none">> \/ \E c \in Counts : All(p, c) # {} /\ Number(Last(p, c), 0) < 1)
  \/ tool = "lt-proc" /\ \E f \in All(p, "ignored-chars") \cup All(p, "restore-chars") : f \notin DOMAIN contents
  \/ tool = "lt-comp" /\ (\/ File(p, 1) \notin {"lr", "rl", "u"}
                          \/ (File(p, 1) = "lr" /\ All(p, "var-left") # {}) \/ (File(p, 1) = "rl" /\ All(p, "var-right") # {}))
Meaning(tool, p, contents, stdin) ==
  LET T == Tools[tool]
      L == {p.strs[n][1] : n \in 1..Len(p.strs)}
      same(l) == IF l \in Counts THEN {ToString(Number(Last(p, l), 0))}
                 ELSE IF l \in {"ignored-chars", "restore-chars"} THEN {contents[f] : f \in All(p, l)} ELSE All(p, l)
  IN  [ins |-> [n \in 1..Len(T.files) |-> IF n = OutAt(T) THEN "" ELSE Input(T, p, n, contents, stdin)],
       strs |-> {<<l, same(l)>> : l \in L},
       mode |-> IF tool = "lt-proc" THEN Mode(p) ELSE <<>>,
       bools |-> IF tool = "lt-proc" THEN p.bools \cap {"case-sensitive", "null-flush", "dictionary-case", "no-default-ignore", "show-weights"}
                 ELSE p.bools \ {"verbose"}]
=============================================================================
