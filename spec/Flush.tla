-------------------------------- MODULE Flush --------------------------------
(* The null-flush protocol of the stream tools.  A client writes texts, each      *)
(* followed by a null, and waits for each answer; the tool must answer as soon as *)
(* the null has arrived (output flushed, nothing held back), end the answer with  *)
(* a null, and start every text from its initial state: the answer to a text      *)
(* depends on that text alone.  At the end of the input it ends too.              *)
EXTENDS Naturals, Sequences
CONSTANTS Texts,      \* the texts a client can send
          Answer(_)   \* what the tool says to a text in its initial state
VARIABLES hist,       \* texts sent
          inbox,      \* sent, not yet read by the tool
          mem,        \* what the tool remembers of earlier texts
          outbuf,     \* answers written and not flushed
          got,        \* answers the client has received
          open        \* the client has not closed its end
vars == <<hist, inbox, mem, outbuf, got, open>>
CONSTANT MaxSent
Init == hist = <<>> /\ inbox = <<>> /\ mem = <<>> /\ outbuf = <<>> /\ got = <<>> /\ open = TRUE
Send(t) == /\ open /\ Len(hist) = Len(got) /\ Len(hist) < MaxSent
           /\ hist' = Append(hist, t) /\ inbox' = Append(inbox, t)
           /\ UNCHANGED <<mem, outbuf, got, open>>
Process == /\ inbox # <<>>
           /\ outbuf' = Append(outbuf, Answer(<<mem, Head(inbox)>>))
           /\ mem' = <<>>                       \* back to the initial state
           /\ inbox' = Tail(inbox)
           /\ UNCHANGED <<hist, got, open>>
Deliver == /\ outbuf # <<>>                     \* the null flushes
           /\ got' = got \o outbuf /\ outbuf' = <<>>
           /\ UNCHANGED <<hist, inbox, mem, open>>
Close == open /\ open' = FALSE /\ UNCHANGED <<hist, inbox, mem, outbuf, got>>
Next == (\E t \in Texts : Send(t)) \/ Process \/ Deliver \/ Close
Spec == Init /\ [][Next]_vars /\ WF_vars(Process) /\ WF_vars(Deliver)
\* ---- guarantees -------------------------------------------------------------------
Answers == \A i \in 1..Len(got) : got[i] = Answer(<<<<>>, hist[i]>>)
NoExtra == Len(got) <= Len(hist)
Answered == \A n \in 1..MaxSent : (Len(hist) >= n) ~> (Len(got) >= n)
=============================================================================
