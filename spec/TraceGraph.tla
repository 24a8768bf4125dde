----------------------------- MODULE TraceGraph -----------------------------
(* Conformance of recorded runs: every record of the trace must be a run the   *)
(* specification allows.  One behaviour per record: given -> judged.            *)
EXTENDS Notices, Dot, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
Judge1(r) == CASE Prop = "C04" -> JStarts(r.c, r.o, r.ps)
               [] Prop = "C25" -> JTold(r.c, r.o, r.told, r.ps)
               \* with start points: labels in the filtered graphs, too
               [] Prop = "C19" /\ "ps" \in DOMAIN r -> Judge("C19", r.c, r.o) \o FlattenSeq([i \in DOMAIN r.ps |->
                       IF r.ps[i].o.rc # 0 \/ ~r.ps[i].o.ok THEN <<>> ELSE JShort(r.c, r.ps[i].o, Ids(r.c, r.ps[i].o))])
               [] Prop = "C21" -> JSame(r.c, r.o, r.ps)
               [] Prop = "C20" -> JTops(r.o, r.ps)
               [] Prop = "C18" -> IF MustFail(r.c, McAll(r.c)) THEN Say(r.o.rc # 0, "must fail, but did not")
                                ELSE IF r.o.rc # 0 THEN <<<<"failed", r.o.rc, r.o.note>>>>
                                ELSE LET d == JDot(r.c, r.text, r.part)
                                     IN IF d # <<>> THEN d ELSE JRead(r.c, r.o, r.part)
               [] OTHER -> Judge(Prop, r.c, r.o)
VARIABLES k, verdict
Init == k \in DOMAIN Trace /\ verdict = "given"
Next == /\ verdict = "given"
        /\ LET j == Judge1(Trace[k])
           IN verdict' = IF j = <<>> THEN "allowed"
                         ELSE IF PrintT("REFUSED " \o Trace[k].id \o " " \o ToString(j)) THEN "refused" ELSE "refused"
        /\ UNCHANGED k
Spec == Init /\ [][Next]_<<k, verdict>>
=============================================================================
