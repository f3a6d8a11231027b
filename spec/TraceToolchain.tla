---------------------------- MODULE TraceToolchain ----------------------------
(* Trace validation: every line of trace.ndjson is a scenario whose events were *)
(* recorded from the real tools; the scenario is accepted iff each event is a   *)
(* step of Toolchain whose resulting state projects to what was recorded.       *)
EXTENDS Toolchain, Json, IOUtils
Scenarios == ndJsonDeserialize("trace.ndjson")
VARIABLES k, l
Ev == Scenarios[k].events[l]

SecsOf(o) == {<<s.name, {<<t[1], t[2], t[3]>> : t \in RangeOf(s.rel)}>> : s \in {x \in RangeOf(o.secs) : x.rel # <<>>}}
Dbg == "LT_DEBUG" \in DOMAIN IOEnv
\* the recorded file shows the letters and sections the action must produce
Shows(b, o) == IF b.letters = RangeOf(o.letters) /\ NonEmpty(b.secs) = SecsOf(o) THEN TRUE
               ELSE /\ Dbg
                    /\ PrintT(<<"DIFF", l, "expected", b.letters, b.secs \ SecsOf(o), "observed", RangeOf(o.letters), SecsOf(o) \ b.secs>>)
                    /\ FALSE

ShowsLines(a, b) == IF a = b THEN TRUE
                    ELSE Dbg /\ PrintT(<<"DIFF", l, "expected", a \ b, "observed", b \ a>>) /\ FALSE

ShowsAtt(b, ev) == IF PrintedAs(ev.obs.att, b, ev.hfst, Scenarios[k].tagcps, ev.max) THEN TRUE
                  ELSE Dbg /\ PrintT(<<"DIFF", l, "expected", b.secs, "observed", {AttRel(f, "LR", ev.hfst, Scenarios[k].tagcps, ev.max) : f \in RangeOf(AttSplit(ev.obs.att))}>>) /\ FALSE
\* lt-print -a: a line for every letter and every tag
AlphaLines(b, tags, tagcps) == {<<c>> : c \in b.letters} \cup {tagcps[-t] : t \in tags}

\* lt-paradigm: for every pattern the lines listed; with -s each once and in order
\* (in the order of the analyses, then of the surface forms: ':' sorts the two apart)
ShowsParadigm(b, ev) ==
  \A i \in 1..Len(ev.pats) :
    /\ ShowsLines(ParListed(UnionRel(b), b.letters, ev.pats[i], ev.analyser, RangeOf(ev.excl), Scenarios[k].tagcps), RangeOf(ev.obs.lines[i]))
    /\ ev.sort => \A j \in 1..(Len(ev.obs.lines[i]) - 1) : ParLess(ev.obs.lines[i][j], ev.obs.lines[i][j + 1])

Step ==
  /\ l <= Len(Scenarios[k].events)
  /\ CASE Ev.op = "compile"  -> Compile(Ev.dst, Ev.dix, Ev.opt)
       [] Ev.op = "invert"   -> Invert(Ev.dst, Ev.a)
       [] Ev.op = "append"   -> Append2(Ev.dst, Ev.a, Ev.b, Ev.keep)
       [] Ev.op = "acx"      -> ApplyAcx(Ev.dst, Ev.a, Ev.acx)
       [] Ev.op = "restrict" -> RestrictTo(Ev.dst, Ev.a, Ev.opt)
       [] Ev.op = "compose"  -> Compose(Ev.dst, Ev.a, Ev.b, Ev.inv)
       [] Ev.op = "composeany" -> ComposeAny(Ev.dst, Ev.a, Ev.b, Ev.inv,
               {<<x.name, {<<p.p, p.w>> : p \in RangeOf(x.paths)}>> : x \in RangeOf(Ev.fpaths)})
       [] Ev.op = "trim"     -> Trim(Ev.dst, Ev.a, Ev.b, RangeOf(Ev.match), RangeOf(Ev.cmp),
                                      IF Ev.sep = <<>> THEN NoSep ELSE [t |-> Ev.sep[1], c |-> Ev.sep[2], wb |-> RangeOf(SubSeq(Ev.sep, 3, 5))])
       [] Ev.op = "expand"   -> Expand(Ev.dix, Ev.opt)
       [] Ev.op = "att"      -> AttCompile(Ev.dst, Ev.lines, Ev.opt, Scenarios[k].tagcps)
       [] Ev.op \in {"print", "alpha", "paradigm"} -> PrintText(Ev.a)
       [] Ev.op = "copy"     -> Copy(Ev.dst, Ev.a)
  /\ IF status' = Ev.status THEN TRUE
     ELSE Dbg /\ PrintT(<<"STATUS", l, "expected", status', "observed", Ev.status>>) /\ FALSE
  /\ (status' = "ok") => IF Ev.op = "expand" THEN ShowsLines(XLines(Ev.dix, Ev.opt, Scenarios[k].tagcps), RangeOf(Ev.obs.lines))
                         ELSE IF Ev.op = "print" THEN ShowsAtt(store[Ev.a], Ev)
                         ELSE IF Ev.op = "alpha" THEN ShowsLines(AlphaLines(store[Ev.a], RangeOf(Ev.tagset), Scenarios[k].tagcps), RangeOf(Ev.obs.lines))
                         ELSE IF Ev.op = "paradigm" THEN ShowsParadigm(store[Ev.a], Ev)
                         ELSE Shows(store'[Ev.dst], Ev.obs)
  /\ l' = l + 1
  /\ k' = k
TInit == /\ store = [x \in {} |-> 0]
         /\ status = "ok"
         /\ k \in 1..Len(Scenarios)
         /\ l = 1
TSpec == TInit /\ [][Step]_<<store, status, k, l>>
View == <<k, l>>
Report == l > Len(Scenarios[k].events) => PrintT(<<"ACCEPT", Scenarios[k].id>>)
Progress == PrintT(<<"AT", Scenarios[k].id, l>>)
=============================================================================
