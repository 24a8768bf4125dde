----------------------------- MODULE TraceWrapper ---------------------------
(* Recorded runs of the real wrapper.  A record r:                              *)
(*   argv   what it was given, after the compiler's path                        *)
(*   plan   what the stand-in compiler does (as Wrapper!Outcomes)               *)
(*   seen   argument lists of the compilers that were started                   *)
(*   env    whether each of them had exactly the wrapper's environment and cwd  *)
(*   stdin  whether each of them could read what the wrapper was given          *)
(*   said   the marker lines on stderr, err the other lines; perr, pout what    *)
(*          the compiler wrote on stderr and stdout; out what came out          *)
(*   rc     exit status, -s if killed by signal s                               *)
EXTENDS Wrapper, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
Say(b, what) == IF b THEN <<>> ELSE <<what>>

(* the arguments the wrapper added in front of the original ones                *)
RECURSIVE Inj(_, _)
Inj(a, k) == IF k > Len(a) THEN {}
             ELSE IF a[k] \in {"-Z", "--emit"} /\ k < Len(a) THEN {<<a[k], a[k + 1]>>} \cup Inj(a, k + 2)
             ELSE IF StartsWith("-Z", a[k]) THEN {<<"-Z", DropN(2, a[k])>>} \cup Inj(a, k + 1)
             ELSE IF StartsWith("--emit=", a[k]) THEN {<<"--emit", DropN(7, a[k])>>} \cup Inj(a, k + 1)
             ELSE {<<a[k]>>} \cup Inj(a, k + 1)
JTransparent(r) ==
  LET m == Compiler(r.argv)
      extra == {<<"-Z", "emit-stack-sizes">>} \cup (IF IsCb(m) THEN {<<"--emit", "llvm-ir">>} ELSE {})
      okArgs(s) == /\ Len(s) >= Len(r.argv)
                   /\ SubSeq(s, Len(s) - Len(r.argv) + 1, Len(s)) = r.argv
                   /\ Inj(SubSeq(s, 1, Len(s) - Len(r.argv)), 1) = extra
  IN IF Refused(m) THEN <<>>
     ELSE IF r.plan.k = "absent" THEN Say(r.rc # 0, "success without a compiler")
     ELSE Say(Len(r.seen) = 1, <<"compilers started", Len(r.seen)>>)
          \o Say(\A k \in DOMAIN r.seen : okArgs(r.seen[k]), <<"arguments", r.seen>>)
          \o Say(\A k \in DOMAIN r.env : r.env[k], "environment or working directory")
          \o Say(\A k \in DOMAIN r.stdin : r.stdin[k], "stdin")
          \o Say(IF r.plan.k = "exit" THEN r.rc = r.plan.n ELSE r.rc # 0, <<"exit status", r.rc>>)
          \o Say(r.out = r.pout, "stdout")
          \o Say(IF r.plan.k = "exit" THEN r.err = r.perr ELSE Len(r.err) >= Len(r.perr) /\ SubSeq(r.err, 1, Len(r.perr)) = r.perr, <<"stderr", r.err>>)
JMarkers(r) ==
  LET m == Compiler(r.argv)
  IN IF Refused(m) THEN Say(r.rc # 0, "no output directory, but success") \o Say(~\E s \in Range(r.said) : StartsWith(LL, s), "announced an unknown path")
     ELSE IF r.plan.k = "absent" THEN <<>>
     ELSE Say(Range(r.said) = Markers(m), <<"announced", r.said, Markers(m)>>)
Judge1(r) == CASE Prop = "C14" -> JTransparent(r) [] Prop = "C15" -> JMarkers(r)

VARIABLES k, verdict
TInit == /\ k \in DOMAIN Trace /\ verdict = "given"
         /\ gs = <<>> /\ phase = "" /\ i = 0 /\ got = Nothing /\ said = {} /\ starts = 0 /\ plan = Outcomes[1] /\ rc = 0
TNext == /\ verdict = "given"
         /\ LET j == Judge1(Trace[k])
            IN verdict' = IF j = <<>> THEN "allowed"
                          ELSE IF PrintT("REFUSED " \o Trace[k].id \o " " \o ToString(j)) THEN "refused" ELSE "refused"
         /\ UNCHANGED <<k, gs, phase, i, got, said, starts, plan, rc>>
TSpec == TInit /\ [][TNext]_<<k, verdict, vars>>
=============================================================================
