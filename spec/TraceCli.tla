------------------------------ MODULE TraceCli ------------------------------
(* Recorded calls of a real tool: each is refused or delivers its result where   *)
(* it should, and the same request has had the same result before.               *)
EXTENDS Cli, Json, IOUtils
Scenarios == ndJsonDeserialize("trace.ndjson")
VARIABLES k, j, known               \* known: set of <<meaning, status, result>>
Sc == Scenarios[k]
Dbg == "LT_DEBUG" \in DOMAIN IOEnv
TInit == k \in 1..Len(Scenarios) /\ j = 1 /\ known = {}
Req(c) == Scan(Tools[Sc.tool], c.toks)
\* c: toks, stdin (content), status ("ok", "refused"; anything else is a crash), out (standard output), file (the output file; "none": not there)
\* tools that write a compiled file tell its size on standard output, unless that is where the file goes
Reports(tool) == tool \notin {"lt-proc", "lt-expand", "lt-print", "lt-merge", "lt-paradigm"}
Delivered(c, p) == IF NoFile(File(p, OutAt(Tools[Sc.tool]))) THEN [res |-> c.out, other |-> c.file] ELSE [res |-> c.file, other |-> c.out]
Allowed(c, p) ==
  IF p.st = "version" THEN c.status = "ok" /\ c.file = "none"
  ELSE IF p.st = "request" /\ Undefined(Sc.tool, p) THEN TRUE
  ELSE IF Refused(Sc.tool, p, Sc.contents, c.stdin)
  THEN c.status = "refused" /\ (p.st # "request" => c.file = "none" /\ (p.st = "help" \/ c.out = ""))
  ELSE LET m == Meaning(Sc.tool, p, Sc.contents, c.stdin)
           d == Delivered(c, p)
       IN  /\ c.status \in {"ok", "refused"}
           /\ c.status = "ok" => d.res # "none" /\ (d.other \in {"", "none"} \/ (c.file = d.res /\ Reports(Sc.tool)))
           /\ \A x \in known : x[1] = m => x[2] = c.status /\ (c.status = "ok" => x[3] = d.res)
Step == /\ j <= Len(Sc.calls)
        /\ LET c == Sc.calls[j]
               p == Req(c)
           IN  /\ IF Allowed(c, p) THEN TRUE
                  ELSE Dbg /\ PrintT(<<"DIFF", j, c, p, Refused(Sc.tool, p, Sc.contents, c.stdin), known>>) /\ FALSE
               /\ known' = IF p.st = "request" /\ ~Undefined(Sc.tool, p) /\ ~Refused(Sc.tool, p, Sc.contents, c.stdin)
                           THEN known \cup {<<Meaning(Sc.tool, p, Sc.contents, c.stdin), c.status, Delivered(c, p).res>>} ELSE known
        /\ j' = j + 1 /\ UNCHANGED k
TSpec == TInit /\ [][Step]_<<k, j, known>>
View == <<k, j>>
Report == j > Len(Sc.calls) => PrintT(<<"ACCEPT", Sc.id>>)
=============================================================================
