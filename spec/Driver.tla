-------------------------------- MODULE Driver ------------------------------
(* One run of the tool, from its arguments to its exit (C17, C24): it checks    *)
(* the toolchain and the arguments, makes the sources newer than every build,   *)
(* has cargo build, reads the announced and produced artifacts, and prints.     *)
(* Whatever goes wrong ends the run as a failure; nothing is printed before     *)
(* everything was read.                                                         *)
EXTENDS Common, Json

Toolchains == {"supported", "unsupported", "unknown", "overridden", "misspelled"}   \* the last two: unsupported, with the override variable
Arguments == {"example", "bin", "neither", "both", "unknown-option", "unknown-format"}
Outcomes == {[k |-> "exit", n |-> 0], [k |-> "exit", n |-> 1], [k |-> "exit", n |-> 101], [k |-> "kill", n |-> 9], [k |-> "absent", n |-> 0]}
Announcements == {"both", "no-ll", "no-rlib", "none"}
Faults == {"none", "no-elf", "no-ll", "no-o", "no-cbll", "no-rlib", "bad-elf", "bad-ll", "bad-o", "bad-cbll", "bad-rlib", "cut-o", "cut-elf", "full"}
Good(t) == t \in {"supported", "overridden"}
Named(a) == a \in {"example", "bin"}

VARIABLES tc, ar, out, an, fa,     \* the environment's choices
          phase, touched, builds, printed, rc
dvars == <<tc, ar, out, an, fa, phase, touched, builds, printed, rc>>
DInit == /\ tc \in Toolchains /\ ar \in Arguments /\ out \in Outcomes /\ an \in Announcements /\ fa \in Faults
         /\ phase = "toolchain" /\ touched = FALSE /\ builds = 0 /\ printed = "nothing" /\ rc = -1
Fail(n) == phase' = "done" /\ rc' = n
Keep == UNCHANGED <<tc, ar, out, an, fa>>
Toolchain == /\ phase = "toolchain" /\ Keep /\ UNCHANGED <<touched, builds, printed>>
             /\ IF Good(tc) THEN phase' = "arguments" /\ rc' = rc ELSE Fail(1)
Args == /\ phase = "arguments" /\ Keep /\ UNCHANGED <<touched, builds, printed>>
        /\ IF Named(ar) THEN phase' = "touch" /\ rc' = rc ELSE Fail(IF ar \in {"unknown-option", "unknown-format"} THEN 2 ELSE 1)
Touch == phase = "touch" /\ phase' = "build" /\ touched' = TRUE /\ Keep /\ UNCHANGED <<builds, printed, rc>>
Build == /\ phase = "build" /\ Keep /\ UNCHANGED <<touched, printed>>
         /\ builds' = IF out.k = "absent" THEN builds ELSE builds + 1
         /\ IF out = [k |-> "exit", n |-> 0] THEN phase' = "announcements" /\ rc' = rc
            ELSE Fail(IF out.k = "exit" THEN out.n ELSE 1)
Announced == /\ phase = "announcements" /\ Keep /\ UNCHANGED <<touched, builds, printed>>
             /\ IF an = "both" THEN phase' = "artifacts" /\ rc' = rc ELSE Fail(101)
Artifacts == /\ phase = "artifacts" /\ Keep /\ UNCHANGED <<touched, builds, printed>>
             /\ IF fa \in {"none", "full"} THEN phase' = "print" /\ rc' = rc ELSE \E n \in {1, 101} : Fail(n)
Show == /\ phase = "print" /\ Keep /\ UNCHANGED <<touched, builds>>
         /\ phase' = "done"
         /\ IF fa = "full" THEN printed' = "part" /\ rc' = 1 ELSE printed' = "graph" /\ rc' = 0
Tell == /\ phase = "done" /\ phase' = "told" /\ Keep /\ UNCHANGED <<touched, builds, printed, rc>>
        /\ PrintT("CASE " \o ToJson(<<tc, ar, out.k, out.n, an, fa>>))
DNext == Toolchain \/ Args \/ Touch \/ Build \/ Announced \/ Artifacts \/ Show \/ Tell
DSpec == DInit /\ [][DNext]_dvars

Ended == phase \in {"done", "told"}
AllWell == Good(tc) /\ Named(ar) /\ out = [k |-> "exit", n |-> 0] /\ an = "both" /\ fa = "none"
Honest == Ended => (rc = 0) = AllWell /\ (rc = 0) = (printed = "graph")
NoGraph == printed = "graph" => AllWell
TouchedFirst == builds > 0 => touched
OneBuild == builds <= 1
CodePassedOn == Ended /\ Good(tc) /\ Named(ar) /\ out.k = "exit" /\ out.n # 0 => rc = out.n
=============================================================================
