------------------------------ MODULE MCCoding ------------------------------
(* A file: writers append items, readers take them off in the same order, each  *)
(* knowing only the kind of the next item.  Whatever was written before and      *)
(* comes after, every item is read back as it was, and the reader stops exactly  *)
(* where the next item begins.                                                   *)
EXTENDS Coding
CONSTANT MaxItems
Ints == UNION {{b - 1, b, b + 1} : b \in {1, 64, 256, 16384, 65536, 4194304, 16777216, T26}} \cup {1073741822, 1073741823}
Weights == {<<0, 0>>, <<536870912, 1>>, <<536870912, 0>>, <<-536870912, 1>>, <<1073741823, 4>>, <<-1073741823, -7>>, <<536870913, 1024>>,
            <<805306368, -1073>>, <<-536870913, -1>>, <<-536870912, -2>>, <<"inf">>, <<"-inf">>}
Strs == {<<>>, <<97>>, <<0>>, <<63, 64>>, <<255, 16383, 16384>>, <<65535, 65536, 1114111>>}
Sers == {[i \in 1..8 |-> 0], [i \in 1..8 |-> 255], [i \in 1..8 |-> IF i = 8 THEN 255 ELSE 0], [i \in 1..8 |-> IF i = 7 THEN 1 ELSE 0],
         [i \in 1..8 |-> IF i >= 5 THEN 255 ELSE 0], [i \in 1..8 |-> IF i = 1 THEN 128 ELSE 0]}
Items == ({"int"} \X Ints) \cup ({"weight"} \X Weights) \cup ({"str"} \X Strs) \cup ({"ser"} \X Sers)
VARIABLES tape, written, pos, readback
vars == <<tape, written, pos, readback>>
Init == tape = <<>> /\ written = <<>> /\ pos = 1 /\ readback = <<>>
Write(it) == /\ Len(written) < MaxItems
             /\ tape' = tape \o Enc(it)
             /\ written' = Append(written, it)
             /\ UNCHANGED <<pos, readback>>
Read == /\ Len(readback) < Len(written)
        /\ LET kind == written[Len(readback) + 1][1]
               r == Dec(kind, tape, pos)
           IN  /\ readback' = Append(readback, <<kind, r[1]>>)
               /\ pos' = r[2]
        /\ UNCHANGED <<tape, written>>
Next == Read \/ \E it \in Items : Write(it)
Spec == Init /\ [][Next]_vars
RoundTrip == readback = Take(written, Len(readback))
InStep == /\ pos = 1 + Len(Flat([i \in 1..Len(readback) |-> Enc(written[i])]))
          /\ \A i \in 1..Len(tape) : tape[i] \in 0..255
=============================================================================
