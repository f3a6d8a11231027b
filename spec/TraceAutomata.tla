--------------------------- MODULE TraceAutomata ---------------------------
(* Trace validation of the operations of the Transducer class.  The registers     *)
(* hold the automata as recorded; every step must yield an automaton that means   *)
(* what the operation is for.                                                      *)
EXTENDS Automata, Json, IOUtils
Scenarios == ndJsonDeserialize("trace.ndjson")
VARIABLES k, l, reg
Sc == Scenarios[k]
Ev == Sc.events[l]
Dbg == "LT_DEBUG" \in DOMAIN IOEnv
N == Sc.max
Auto(o) == [init |-> o.init, finals |-> {<<x[1], x[2]>> : x \in RangeOf(o.finals)}, arcs |-> {<<x[1], x[2], x[3], x[4]>> : x \in RangeOf(o.arcs)}]
\* a sequence of pairs with weights and of automata, one after the other
Item(x) == IF x.reg >= 0 THEN Lang(reg[x.reg], N) ELSE {<<IF x.pair = 0 THEN <<>> ELSE <<x.pair>>, x.w>>}
SeqLang(s) == FoldLeft(LAMBDA a, x : LCat(a, Item(x), N), {<<<<>>, 0>>}, s)
Expected ==
  CASE Ev.op = "new" -> Lang(Auto(Ev.given), N)
    [] Ev.op = "seqs" -> LeastW(UNION {SeqLang(s) : s \in RangeOf(Ev.seqs)})
    [] Ev.op \in {"det", "min", "join", "copy", "wr", "ser", "realpha"} -> Lang(reg[Ev.a], N)
    [] Ev.op = "rev" -> LReverse(Lang(reg[Ev.a], N))
    [] Ev.op = "opt" -> LOpt(Lang(reg[Ev.a], N))
    [] Ev.op = "plus" -> LPlus(Lang(reg[Ev.a], N), N)
    [] Ev.op = "star" -> LStar(Lang(reg[Ev.a], N), N)
    [] Ev.op = "union" -> LUnion(Lang(reg[Ev.a], N), Lang(reg[Ev.b], N))
    [] Ev.op = "invert" -> LMap(Lang(reg[Ev.a], N), Sc.swap)
    [] Ev.op = "del" -> Lang(ADelete(reg[Ev.a], RangeOf(Ev.syms)), N)
    [] Ev.op = "eps" -> Lang(AEps(reg[Ev.a], RangeOf(Ev.syms)), N)
\* what some operations promise of the form of their result
Deterministic(A) == \A x, y \in A.arcs : (x[1] = y[1] /\ x[3] = y[3] /\ x[4] = y[4]) => x = y
Unweighted(A) == (\A a \in A.arcs : a[4] = 0) /\ \A f \in A.finals : f[2] = 0
FormOK(A, E) ==
  /\ (Ev.op \in {"det", "min"} /\ E # {}) => Deterministic(A) /\ ~ \E a \in A.arcs : a[3] = 0 /\ a[4] = 0
  /\ Ev.op \in {"join", "rev", "opt", "plus", "star"} => Cardinality(A.finals) = 1
  /\ (Ev.op = "min" /\ Unweighted(A) /\ ~Sc.cyclic /\ E # {}) => Ev.obs.size = NeedStates(E)
  /\ Ev.obs.nofinals = (A.finals = {})
  /\ Ev.obs.weighted = ~Unweighted(A)
  /\ Ev.obs.narcs = Len(Ev.obs.arcs)
Step == /\ l <= Len(Sc.events)
        /\ LET A == Auto(Ev.obs)
               E == Expected
               O == Lang(A, N)
           IN  /\ IF E = O /\ FormOK(A, E) THEN TRUE
                  ELSE Dbg /\ PrintT(<<"DIFF", l, Ev.op, "expected", E \ O, "observed", O \ E, "form", FormOK(A, E)>>) /\ FALSE
               /\ reg' = [reg EXCEPT ![Ev.dst] = A]
        /\ l' = l + 1
        /\ k' = k
TInit == k \in 1..Len(Scenarios) /\ l = 1 /\ reg = [i \in 0..15 |-> ANothing]
TSpec == TInit /\ [][Step]_<<k, l, reg>>
View == <<k, l>>
Report == (l > Len(Sc.events) /\ Sc.status = "ok") => PrintT(<<"ACCEPT", Sc.id>>)
=============================================================================
