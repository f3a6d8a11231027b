------------------------------ MODULE MCAnalysis ------------------------------
(* Design check: the analysis machine over every text of up to MaxPieces pieces  *)
(* and every dictionary of a small family.  Each behaviour is written out as a   *)
(* GEN line and replayed on the real lt-proc.                                    *)
EXTENDS Analysis
CONSTANTS MaxPieces, Gen
VARIABLES d, text, ts, p, out
vars == <<d, text, ts, p, out>>

\* pieces of text:  a b A . space [x] \^ newline 1
Pieces == {<<97>>, <<98>>, <<65>>, <<46>>, <<32>>, <<91, 120, 93>>, <<92, 94>>}
tN == -1
E(i, o, w, t) == <<i, o, w, t>>
Dicts ==
  << {E(<<97>>, <<97, tN>>, 0, "standard"), E(<<97, 32, 98>>, <<97, 98, tN>>, 0, "standard"), E(<<98, 98>>, <<98, tN>>, 0, "standard")},
     {E(<<97>>, <<97, tN>>, 0, "inconditional"), E(<<97, 98, 97>>, <<98, tN>>, 0, "standard"), E(<<65>>, <<65, 98, tN>>, 500, "standard"), E(<<97, 46>>, <<120, tN>>, 0, "standard")},
     {E(<<97, 98>>, <<97, tN>>, 0, "postblank"), E(<<98>>, <<98, tN>>, 0, "preblank"), E(<<97, 98, 32, 97>>, <<120, 94, tN>>, 0, "standard"), E(<<46>>, <<46, tN>>, 0, "inconditional")},
     {E(<<94, 97>>, <<94, 97, tN>>, 0, "standard"), E(<<97, 32, 97, 32, 97>>, <<97, tN>>, 0, "standard"), E(<<97, 97>>, <<126, 97, tN>>, 0, "standard")} >>
Cfg == [letters |-> {97, 98}, cs |-> FALSE, dictcase |-> FALSE, ign |-> {173}, N |-> 100, L |-> 100, W |-> FALSE, tagcps |-> <<<<60, 110, 62>>>>, rcx |-> {}]

\* one way of writing a unit: best first, equals in the order of their text
RECURSIVE LexLess(_, _)
LexLess(a, b) == IF a = <<>> THEN b # <<>> ELSE IF b = <<>> THEN FALSE
                 ELSE a[1] < b[1] \/ (a[1] = b[1] /\ LexLess(Tail(a), Tail(b)))
RECURSIVE WriteForms(_)
WriteForms(S) == IF S = {} THEN <<>>
  ELSE LET x == CHOOSE y \in S : \A z \in S : z = y \/ y[2] < z[2] \/ (y[2] = z[2] /\ LexLess(y[1], z[1]))
       IN  <<47>> \o x[1] \o WriteForms(S \ {x})
Written(u) == IF u.kind = "char" THEN u.pre
              ELSE u.pre \o <<94>> \o Esc(u.sf) \o WriteForms(u.forms) \o <<36>> \o u.post

Texts(n) == UNION {[1..m -> Pieces] : m \in 1..n}
Init == /\ d \in 1..Len(Dicts)
        /\ text \in Texts(MaxPieces)
        /\ ts = LexText(Flat(text), Cfg.ign)
        /\ p = 1
        /\ out = <<>>
Next == /\ p <= Len(ts)
        /\ LET u == UnitAt(ts, p, Dicts[d], Cfg)
           IN  /\ p' = p + u.n
               /\ out' = Append(out, u)
        /\ UNCHANGED <<d, text, ts>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ---- what the design guarantees ---------------------------------------------
\* nothing of the text is lost, repeated or reordered: the units show exactly what was consumed
Surface(u) == IF u.kind = "char" THEN <<>> ELSE u.sf
ShownChars == Flat([i \in 1..Len(out) |-> IF out[i].kind = "char" THEN <<-i>> ELSE out[i].sf])
Consumed == LET RECURSIVE Pos(_) Pos(i) == IF i = 0 THEN 0 ELSE Pos(i - 1) + out[i].n IN Pos(Len(out))
TextKept == /\ Consumed = p - 1
            /\ p <= Len(ts) + 1
            /\ \A i \in 1..Len(out) : out[i].n >= 1 /\ (out[i].kind # "char" => Len(out[i].sf) = out[i].n)
\* every blank that is not a plain space comes out exactly once
Count(s, x) == Cardinality({i \in 1..(Len(s) - Len(x) + 1) : StartsAt(s, i, x)})
BlanksKept == Count(Flat([i \in 1..Len(out) |-> Written(out[i])]), <<91, 120, 93>>)
              = Cardinality({i \in 1..(p - 1) : ts[i][2] = <<91, 120, 93>>})
\* no longer match was available
LongestMatch ==
  \A i \in 1..Len(out) :
    LET st == LET RECURSIVE Pos(_) Pos(n) == IF n = 0 THEN 0 ELSE Pos(n - 1) + out[n].n IN Pos(i - 1)
        rest == Drop(ts, st)
    IN  \A e \in Dicts[d] :
          (Len(e[1]) > out[i].n /\ MatchLen(e[1], 0, rest, 0, Cfg) = Len(e[1]))
             => e[4] = "standard" /\ Alphabetic(Tok(rest, Len(e[1]) + 1), Cfg)
\* a word of the dictionary is never reported unknown
KnownFound == \A i \in 1..Len(out) : out[i].kind = "unknown" =>
                ~ \E e \in Dicts[d] : e[1] = LowerSeq(out[i].sf)
Finishes == <>(p = Len(ts) + 1)
Emit == (Gen /\ p = Len(ts) + 1) => PrintT("GEN " \o ToString(<<d, Flat(text), Flat([i \in 1..Len(out) |-> Written(out[i])])>>))
=============================================================================
