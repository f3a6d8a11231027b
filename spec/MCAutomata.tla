----------------------------- MODULE MCAutomata -----------------------------
(* Every automaton with two states over one label and the empty one, weights 0   *)
(* and 1: the constructions keep the language, and each automaton is printed with *)
(* the languages of what the library must make of it, to be replayed.             *)
EXTENDS Automata
CONSTANT N, MaxArcs
Slots == {0, 1} \X {0, 1} \X {0, 7}
VARIABLES A
AutomataOver == {[init |-> 0, finals |-> F, arcs |-> {<<s[1], s[2], s[3], w[s]>> : s \in {x \in Slots : w[x] >= 0}}]
                 : F \in {{<<0, 0>>}, {<<1, 1>>}, {<<0, 1>>, <<1, 0>>}}, w \in {f \in [Slots -> {-1, 0, 1}] : Cardinality({x \in Slots : f[x] >= 0}) <= MaxArcs}}
Init == A \in AutomataOver
Next == UNCHANGED A
Spec == Init /\ [][Next]_A
DetKeeps == Lang(ANumber(ADet(A)), N) = Lang(A, N)
ReverseReverses == Lang(AReverse(A), N) = LReverse(Lang(A, N))
MinKeeps == Lang(AMin(A), N) = Lang(A, N)
MinDeterministic == LET M == AMin(A) IN \A x, y \in M.arcs : (x[1] = y[1] /\ x[3] = y[3] /\ x[4] = y[4]) => x = y
\* strings of the one label are their lengths: languages as the weights of 0, 1, ..., N (-1: not in it)
Show(L) == [i \in 1..(N + 1) |-> LET S == {x \in L : Len(x[1]) = i - 1} IN IF S = {} THEN -1 ELSE (CHOOSE x \in S : TRUE)[2]]
Gen == PrintT("GEN " \o ToString(<<SetToSeq(A.arcs), SetToSeq(A.finals), Show(Lang(A, N)), Show(LPlus(Lang(A, N), N)), Show(LStar(Lang(A, N), N))>>))
=============================================================================
