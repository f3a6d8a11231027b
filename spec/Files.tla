-------------------------------- MODULE Files --------------------------------
(* The files a language pair is built from, as a store that the tools read and   *)
(* write.  A content is whole when it is a valid source, or what a tool wrote     *)
(* when all it read was whole; everything else - a source with an error, a file   *)
(* cut short by a crash or a full disk, what a tool leaves that gave up half way  *)
(* - is not.  A tool runs through exactly when all it reads is whole and all it     *)
(* writes can be written.                                                         *)
EXTENDS Naturals, FiniteSets, Sequences
None == 0                                          \* the content of a file that is not there
WholeIn(store, whole, ins) == \A i \in 1..Len(ins) : store[ins[i]] \in whole
\* what a step may leave: [store, whole] after it
\* someone writes a source, valid or not; or a file is cut short
PutStep(store, whole, f, c, valid) ==
  [store |-> [store EXCEPT ![f] = c], whole |-> IF valid THEN whole \cup {c} ELSE whole]
\* A tool reads `ins` and writes `out`; how:
\* careful - it writes nothing before it has read everything: its output stays what it was when it refuses;
\* total   - it has no reason of its own to refuse what is whole (lt-trim refuses to write an empty dictionary);
\* room    - all that it writes can be written.
RunAllowed(store, whole, ins, out, how, res, c) ==
  IF WholeIn(store, whole, ins) /\ how.room
  THEN res = "ok" \/ (~how.total /\ res = "refused" /\ (c = store[out] \/ c \notin whole))
  ELSE /\ res = "refused"                          \* not "ok", and no crash or hang either
       /\ how.careful /\ ~WholeIn(store, whole, ins) => c = store[out]
       /\ c = store[out] \/ c \notin whole
RunStep(store, whole, ins, out, res, c) ==
  [store |-> [store EXCEPT ![out] = c],
   whole |-> IF res = "ok" THEN whole \cup ({c} \ {None}) ELSE whole]
=============================================================================
