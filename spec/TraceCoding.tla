---------------------------- MODULE TraceCoding ----------------------------
(* Trace validation of the coding functions of the library: every call is a step *)
(* that writes one item and reads it back.                                        *)
EXTENDS Coding, Json, IOUtils
Scenarios == ndJsonDeserialize("trace.ndjson")
VARIABLES k, j
Sc == Scenarios[k]
Dbg == "LT_DEBUG" \in DOMAIN IOEnv
ShowsAlpha(c) ==
  LET tags == AlphaTags(c.tags)
      ps == AlphaPairs(c.pairs)
      good(d) == /\ d.size = Len(tags)
                 /\ d.tags = [i \in 1..Len(c.tags) |-> <<0 - IndexIn(tags, c.tags[i]), <<60>> \o c.tags[i] \o <<62>>>>]
                 /\ d.pairs = [i \in 1..Len(c.pairs) |-> <<IndexIn(ps, c.pairs[i]) - 1, c.pairs[i]>>]
  IN  /\ good(c.before)
      /\ good(c.after)
      /\ c.how = "file" => c.bytes = EncAlpha(tags, ps)
Shows(c) == IF c.kind = "alphabet" THEN ShowsAlpha(c)
            ELSE /\ c.bytes = Enc(<<c.kind, c.value>>)
                 /\ c.bytes2 = c.bytes
                 /\ c.back = c.value /\ c.back2 = c.value
                 /\ c.instep
Call == /\ j <= Len(Sc.calls)
        /\ LET c == Sc.calls[j]
           IN  IF Shows(c) THEN TRUE ELSE (Dbg /\ PrintT(<<"DIFF", j, c>>) /\ FALSE)
        /\ j' = j + 1
        /\ k' = k
TInit == k \in 1..Len(Scenarios) /\ j = 1
TSpec == TInit /\ [][Call]_<<k, j>>
View == <<k, j>>
Report == (j > Len(Sc.calls) /\ Sc.status = "ok") => PrintT(<<"ACCEPT", Sc.id>>)
=============================================================================
