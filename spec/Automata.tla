------------------------------ MODULE Automata ------------------------------
(* Weighted automata, as the Transducer class of the library holds them: states  *)
(* 0, 1, ..., an initial state, final states with weights, arcs labelled by a     *)
(* pair of symbols (here: the number of the pair; 0 is the empty pair).  The      *)
(* meaning of an automaton is its language: the strings of pairs that lead from   *)
(* the initial state to a final one, each with the least weight of its paths.     *)
(*   A = [init, finals (set of <<state, weight>>), arcs (set of <<from, to, pair, weight>>)]  *)
EXTENDS Base
LeastW(R) == {x \in R : ~ \E y \in R : y[1] = x[1] /\ y[2] < x[2]}      \* least weight of each
\* states reached by empty arcs from a set of <<state, weight>> (weights are not negative on cycles)
RECURSIVE EpsReach(_, _)
EpsReach(A, R) == LET S == LeastW(R \cup UNION {{<<a[2], x[2] + a[4]>> : a \in {b \in A.arcs : b[1] = x[1] /\ b[3] = 0}} : x \in R})
                  IN  IF S = R THEN R ELSE EpsReach(A, S)
StepOn(A, R, p) == EpsReach(A, LeastW(UNION {{<<a[2], x[2] + a[4]>> : a \in {b \in A.arcs : b[1] = x[1] /\ b[3] = p}} : x \in R}))
EndW(A, R) == UNION {{x[2] + f[2] : f \in {g \in A.finals : g[1] = x[1]}} : x \in R}
Labels(A) == {a[3] : a \in A.arcs} \ {0}
RECURSIVE LangFrom(_, _, _, _)
LangFrom(A, R, w, n) ==
  IF R = {} THEN {}
  ELSE LET e == EndW(A, R)
       IN  (IF e = {} THEN {} ELSE {<<w, MinOf(e)>>})
           \cup (IF n = 0 THEN {} ELSE UNION {LangFrom(A, StepOn(A, R, p), Append(w, p), n - 1) : p \in Labels(A)})
\* the language, up to strings of length n
Lang(A, n) == LangFrom(A, EpsReach(A, {<<A.init, 0>>}), <<>>, n)

\* ---- operations on languages (up to length n)
LUnion(L, M) == LeastW(L \cup M)
LCat(L, M, n) == LeastW(UNION {{<<x[1] \o y[1], x[2] + y[2]>> : y \in {z \in M : Len(x[1]) + Len(z[1]) <= n}} : x \in L})
LOpt(L) == LUnion(L, {<<<<>>, 0>>})
RECURSIVE LPlusFrom(_, _, _)
LPlusFrom(P, L, n) == LET Q == LUnion(P, LCat(P, L, n)) IN IF Q = P THEN P ELSE LPlusFrom(Q, L, n)
LPlus(L, n) == LPlusFrom(L, L, n)
LStar(L, n) == LOpt(LPlus(L, n))
LReverse(L) == {<<Reverse(x[1]), x[2]>> : x \in L}
LMap(L, f) == LeastW({<<[i \in 1..Len(x[1]) |-> f[x[1][i]]], x[2]>> : x \in L})

\* ---- operations on automata
ADelete(A, S) == [A EXCEPT !.arcs = {a \in A.arcs : a[3] \notin S}]
AEps(A, S) == [A EXCEPT !.arcs = {IF a[3] \in S THEN <<a[1], a[2], 0, a[4]>> ELSE a : a \in A.arcs}]

\* the constructions of the library, for the design model
AJoin(A) == IF Cardinality(A.finals) <= 1 THEN A
            ELSE LET s == MaxOf({A.init} \cup {a[1] : a \in A.arcs} \cup {a[2] : a \in A.arcs} \cup {f[1] : f \in A.finals}) + 1
                 IN  [init |-> A.init, finals |-> {<<s, 0>>}, arcs |-> A.arcs \cup {<<f[1], s, 0, f[2]>> : f \in A.finals}]
AReverse(A) == LET B == AJoin(A)
                   f == CHOOSE x \in B.finals : TRUE
               IN  [init |-> f[1], finals |-> {<<B.init, f[2]>>}, arcs |-> {<<a[2], a[1], a[3], a[4]>> : a \in B.arcs}]
\* subsets linked by empty arcs of no weight; an arc of the result for each label and weight
RECURSIVE Closure(_, _)
Closure(A, S) == LET T == S \cup {a[2] : a \in {b \in A.arcs : b[1] \in S /\ b[3] = 0 /\ b[4] = 0}}
                 IN  IF T = S THEN S ELSE Closure(A, T)
DetArcs(A, S) == LET out == {a \in A.arcs : a[1] \in S /\ (a[3] # 0 \/ a[4] # 0)}
                 IN  {<<S, Closure(A, {a[2] : a \in {b \in out : b[3] = l[1] /\ b[4] = l[2]}}), l[1], l[2]>> : l \in {<<a[3], a[4]>> : a \in out}}
RECURSIVE DetAll(_, _, _)
DetAll(A, done, todo) ==
  IF todo = {} THEN done
  ELSE LET new == {x[2] : x \in UNION {DetArcs(A, S) : S \in todo}}
       IN  DetAll(A, done \cup todo, new \ (done \cup todo))
ADet(A) == LET i == Closure(A, {A.init})
               Q == DetAll(A, {}, {i})
               fw(S) == {f[2] : f \in {g \in A.finals : g[1] \in S}}
           IN  [init |-> i, arcs |-> UNION {DetArcs(A, S) : S \in Q}, finals |-> {<<S, MinOf(fw(S))>> : S \in {T \in Q : fw(T) # {}}}]
\* number the states of an automaton whose states are sets
ANumber(A) == LET Q == {A.init} \cup {a[1] : a \in A.arcs} \cup {a[2] : a \in A.arcs} \cup {f[1] : f \in A.finals}
                  s == SetToSeq(Q)
                  num(x) == (CHOOSE i \in 1..Len(s) : s[i] = x) - 1
              IN  [init |-> num(A.init), finals |-> {<<num(f[1]), f[2]>> : f \in A.finals},
                   arcs |-> {<<num(a[1]), num(a[2]), a[3], a[4]>> : a \in A.arcs}]
ANothing == [init |-> 0, finals |-> {}, arcs |-> {}]
AMin(A) == LET d(x) == IF x.finals = {} THEN ANothing ELSE ANumber(ADet(AReverse(x))) IN d(d(A))
\* the states that a deterministic automaton for a finite language without weights needs
Residual(L, u) == {Drop(x[1], Len(u)) : x \in {y \in L : StartsAt(y[1], 1, u)}}
NeedStates(L) == Cardinality({Residual(L, u) : u \in UNION {{Take(x[1], i) : i \in 0..Len(x[1])} : x \in L}})
=============================================================================
