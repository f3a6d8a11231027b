------------------------------- MODULE MCFiles -------------------------------
(* All histories of a small store.  Contents are described by where they come     *)
(* from, and the model checks what the rules of Files are for: whatever was       *)
(* crashed, broken and built, in whatever order, no result that a tool delivered  *)
(* as complete has an incomplete or invalid ancestor.                             *)
EXTENDS Files
CONSTANTS Names, Depth
VARIABLES store, whole, kind, from, n, last
vars == <<store, whole, kind, from, n, last>>
\* contents are numbered; kind[c]: "source", "wrong", "cut", "made", "left"; from[c]: the contents it was made of
New == n + 1
Init == /\ store = [f \in Names |-> None] /\ whole = {} /\ n = 0
        /\ kind = <<>> /\ from = <<>> /\ last = None
Put(f, k) == /\ LET s == PutStep(store, whole, f, New, k = "source") IN store' = s.store /\ whole' = s.whole
             /\ kind' = Append(kind, k)
             /\ from' = Append(from, IF k = "cut" THEN {store[f]} ELSE {})
             /\ n' = New /\ last' = None
Write(f) == Put(f, "source") \/ Put(f, "wrong")
Cut(f) == store[f] # None /\ Put(f, "cut")
Run(a, b, out, how) ==
  LET ins == <<a, b>> IN
  \/ /\ RunAllowed(store, whole, ins, out, how, "ok", New)
     /\ LET s == RunStep(store, whole, ins, out, "ok", New) IN store' = s.store /\ whole' = s.whole
     /\ kind' = Append(kind, "made") /\ from' = Append(from, {store[a], store[b]})
     /\ n' = New /\ last' = New
  \/ \E keep \in BOOLEAN :
       LET c == IF keep THEN store[out] ELSE New IN
       /\ RunAllowed(store, whole, ins, out, [how EXCEPT !.careful = keep], "refused", c)
       /\ LET s == RunStep(store, whole, ins, out, "refused", c) IN store' = s.store /\ whole' = s.whole
       /\ IF keep THEN UNCHANGED <<kind, from, n>>
          ELSE kind' = Append(kind, "left") /\ from' = Append(from, {store[a], store[b]}) /\ n' = New
       /\ last' = None
Next == n < Depth /\ (\/ \E f \in Names : Write(f) \/ Cut(f)
                      \/ \E a, b, out \in Names, t, r \in BOOLEAN : Run(a, b, out, [careful |-> FALSE, total |-> t, room |-> r]))
Spec == Init /\ [][Next]_vars
RECURSIVE Sound(_)
Sound(c) == c # None /\ kind[c] \in {"source", "made"} /\ \A d \in from[c] : Sound(d)
Delivered == last = None \/ Sound(last)
WholeIsSound == \A c \in whole : Sound(c)
\* and nothing is refused without a reason
NeverLocked == \A f \in Names : store[f] # None /\ Sound(store[f]) => store[f] \in whole
=============================================================================
