-------------------------------- MODULE MCCli --------------------------------
(* Every command line of at most Most arguments out of a small choice, for a tool *)
(* with options of both kinds: scanned step by step, each step a transition.      *)
EXTENDS Cli
CONSTANT Most
T == Tools["lt-paradigm"]
Args == {"-a", "-as", "-se", "-en", "--exc=v", "--ex", "--sort", "--s", "-q", "--", "F", "P", "-"}
VARIABLES toks, p
vars == <<toks, p>>
Init == toks \in UNION {[1..n -> Args] : n \in 0..Most} /\ p = Start
Next == p.st = "scan" /\ p' = ScanStep(T, toks, p) /\ UNCHANGED toks
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* every command line is understood or refused
Ends == <>(p.st # "scan")
\* files keep their order and are arguments that are no options, unless they stand after --
RECURSIVE Within(_, _)
Within(s, t) == IF s = <<>> THEN TRUE ELSE IF t = <<>> THEN FALSE
                ELSE IF s[1] = t[1] THEN Within(Tail(s), Tail(t)) ELSE Within(s, Tail(t))
IsOpt(t) == Len(t) > 1 /\ Ch(t, 1) = "-"
FilesKept == Within(p.files, toks)
NoOptionIsAFile == p.st = "request" => \A n \in 1..Len(p.files) : IsOpt(p.files[n]) => \E m \in 1..Len(toks) : toks[m] = "--"
\* the plain way to write what was understood is understood as the same
Letter(l) == "-" \o (CHOOSE o \in T.opts : o.l = l).s
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Flags(q) == LET b == SetSeq(q.bools) IN [n \in 1..Len(b) |-> Letter(b[n])]
RECURSIVE Vals(_)
Vals(s) == IF s = <<>> THEN <<>> ELSE <<Letter(s[1][1]), s[1][2]>> \o Vals(Tail(s))
Plain(q) == Flags(q) \o Vals(q.strs) \o <<"--">> \o q.files
PlainMeansTheSame == p.st = "request" => LET q == Scan(T, Plain(p)) IN [q EXCEPT !.i = 0] = [p EXCEPT !.i = 0]
Gen == p.st # "scan" => PrintT("GEN " \o ToString(<<toks, p.st, IF p.st = "request" THEN Plain(p) ELSE <<>>>>))
=============================================================================
