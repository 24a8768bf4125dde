------------------------------- MODULE Wrapper ------------------------------
(* The tool as rustc wrapper (C14, C15): it reads the arguments meant for the   *)
(* compiler, announces artifacts of compiler_builtins, starts the compiler,     *)
(* waits for it and exits as it did.                                            *)
(*                                                                              *)
(* Two readings of an argument list are specified.  Compiler reads it as rustc  *)
(* does: every option knows whether it takes a value.  Scan reads it from left  *)
(* to right knowing only the four options of interest -- all the wrapper needs. *)
(* Agree says that on what cargo can construct they never differ, and Announced *)
(* that what is announced is what the compiler will write and read.             *)
EXTENDS Common, Json

(* --------------------------------------------------- the compiler's reading -- *)
Valued == {"--extern", "--crate-name", "--out-dir", "-C", "--cfg", "--check-cfg", "-L", "-l", "--emit", "-A", "-W", "-D", "-F",
           "--cap-lints", "--crate-type", "--edition", "--error-format", "--json", "--target", "-Z", "--print", "--sysroot", "-o",
           "--remap-path-prefix", "--diagnostic-width", "--color"}
(* groups: sequence of <<option, value>> / <<token>>                            *)
RECURSIVE Groups(_, _)
Groups(a, i) ==
  IF i > Len(a) THEN <<>>
  ELSE IF a[i] \in Valued /\ i < Len(a) THEN <<<<a[i], a[i + 1]>>>> \o Groups(a, i + 2)
  ELSE IF Len(a[i]) > 2 /\ StartsWith("-C", a[i]) THEN <<<<"-C", DropN(2, a[i])>>>> \o Groups(a, i + 1)
  ELSE <<<<a[i]>>>> \o Groups(a, i + 1)
RECURSIVE PosOf(_, _, _)
PosOf(s, c, i) == IF i > Len(s) THEN 0 ELSE IF SubSeq(s, i, i) = c THEN i ELSE PosOf(s, c, i + 1)
KeyOf(v) == LET p == PosOf(v, "=", 1) IN IF p = 0 THEN v ELSE SubSeq(v, 1, p - 1)
ValOf(v) == LET p == PosOf(v, "=", 1) IN IF p = 0 THEN <<>> ELSE <<DropN(p, v)>>
NoPrelude(v) == IF StartsWith("noprelude:", v) THEN DropN(10, v) ELSE v

(* everything said about the artifacts in a list of groups                     *)
Of(gs, opt) == SelectSeq(gs, LAMBDA g : Len(g) = 2 /\ g[1] = opt)
Meaning(gs) ==
  LET names == Of(gs, "--crate-name")
      dirs == Of(gs, "--out-dir")
      extras == SelectSeq(Of(gs, "-C"), LAMBDA g : KeyOf(g[2]) = "extra-filename")
      exts == SelectSeq(Of(gs, "--extern"), LAMBDA g : KeyOf(NoPrelude(g[2])) = "compiler_builtins" /\ ValOf(NoPrelude(g[2])) # <<>>)
  IN [name |-> IF names = <<>> THEN "" ELSE names[1][2],
      dir |-> IF dirs = <<>> THEN <<>> ELSE <<dirs[1][2]>>,
      extra |-> IF extras = <<>> THEN "" ELSE LET v == ValOf(extras[Len(extras)][2]) IN IF v = <<>> THEN "" ELSE v[1],
      rlibs |-> [i \in DOMAIN exts |-> ValOf(NoPrelude(exts[i][2]))[1]]]
Compiler(a) == Meaning(Groups(a, 1))

RLIB == "@CARGO_CALL_STACK:compiler_builtins_rlib_path@"
LL == "@CARGO_CALL_STACK:compiler_builtins_ll_path@"
IsCb(m) == m.name = "compiler_builtins"
Refused(m) == IsCb(m) /\ m.dir = <<>>
LlPath(m) == m.dir[1] \o "/compiler_builtins" \o m.extra \o ".ll"
Markers(m) == {RLIB \o p : p \in Range(m.rlibs)} \cup (IF IsCb(m) /\ m.dir # <<>> THEN {LL \o LlPath(m)} ELSE {})

(* --------------------------------------------------------- the vocabulary ---- *)
Vocab == <<
  <<"--crate-name", "compiler_builtins">>, <<"--crate-name", "app">>, <<"--crate-name", "compiler_builtins_x">>, <<"--crate-name", "build_script_build">>,
  <<"--out-dir", "/t/release/deps">>, <<"--out-dir", "rel dir">>, <<"--out-dir", "/a=b">>, <<"--out-dir", "">>,
  <<"-C", "extra-filename=-0123456789abcdef">>, <<"-Cextra-filename=-fedc">>, <<"-C", "extra-filename=">>, <<"-Cextra-filename=-a=b">>,
  <<"-C", "metadata=extra-filename=-bad">>, <<"-C", "link-arg=--out-dir">>, <<"-Clink-arg=-Cextra-filename=-bad">>, <<"-C", "link-args=--extern compiler_builtins=/bad">>,
  <<"-Clink-arg=--crate-name">>, <<"-C", "-Cextra-filename=-bad">>, <<"-C", "--out-dir">>, <<"-C", "opt-level=s">>,
  <<"--extern", "noprelude:compiler_builtins=/p/libcompiler_builtins-1.rlib">>, <<"--extern", "compiler_builtins=/p/libcompiler_builtins-2.rlib">>,
  <<"--extern", "compiler_builtins">>, <<"--extern", "noprelude:compiler_builtins">>, <<"--extern", "compiler_builtins=/a=b/c:d.rlib">>,
  <<"--extern", "noprelude:compiler_builtins_x=/p/x.rlib">>, <<"--extern", "xcompiler_builtins=/p/x.rlib">>, <<"--extern", "noprelude:core=/p/compiler_builtins=.rlib">>,
  <<"--extern", "core=compiler_builtins=x">>, <<"--extern", "priv:alloc=/p/liballoc.rlib">>,
  <<"--cfg", "feature=\"compiler_builtins\"">>, <<"--cfg", "k=\"--extern compiler_builtins=/bad\"">>, <<"--check-cfg", "cfg(docsrs)">>,
  <<"-L", "dependency=/t/release/deps">>, <<"--emit=dep-info,link">>, <<"--emit=llvm-ir">>, <<"--emit", "metadata">>, <<"--crate-type", "lib">>, <<"--test">>, <<"src/lib.rs">>,
  <<"-">>, <<"-A", "warnings">>, <<"-Zforce-unstable-if-unmarked">>, <<"-Zemit-stack-sizes">>, <<"-Z", "emit-stack-sizes">>, <<"--extern", "compiler_builtins= /p q/lib .rlib ">>, <<"--edition=2021">>, <<"--json=diagnostic-rendered-ansi,artifacts">>, <<"-vV">> >>
Once(g) == g[1] \in {"--crate-name", "--out-dir"}
Outcomes == <<[k |-> "exit", n |-> 0], [k |-> "exit", n |-> 1], [k |-> "exit", n |-> 101], [k |-> "kill", n |-> 9], [k |-> "kill", n |-> 6], [k |-> "absent", n |-> 0], [k |-> "exit", n |-> 255]>>

(* ------------------------------------------------------------- the machine --- *)
CONSTANTS N
VARIABLES gs,        \* what was passed, as groups (the environment's choice)
          phase,     \* "given" "read" "announced" "started" "done"
          i, got,    \* position in the argument list; what was understood so far
          said, starts, plan, rc
vars == <<gs, phase, i, got, said, starts, plan, rc>>
Argv(x) == FlattenSeq(x)
Nothing == [name |-> "", dir |-> <<>>, extra |-> "", rlibs |-> <<>>]

Init == /\ gs = <<>> /\ phase = "given" /\ i = 1 /\ got = Nothing /\ said = {} /\ starts = 0 /\ rc = -1
        /\ plan \in {Outcomes[k] : k \in DOMAIN Outcomes}
Pass == /\ phase = "given" /\ Len(gs) < N
        /\ \E k \in DOMAIN Vocab : ~(Once(Vocab[k]) /\ \E j \in DOMAIN gs : gs[j][1] = Vocab[k][1]) /\ gs' = Append(gs, Vocab[k])
        /\ (N > 2 => plan.k = "exit" /\ plan.n = 0)
        /\ UNCHANGED <<phase, i, got, said, starts, plan, rc>>
Begin == phase = "given" /\ Len(gs) = N /\ phase' = "read" /\ UNCHANGED <<gs, i, got, said, starts, plan, rc>>
(* one argument of interest, or one token skipped                              *)
Read == /\ phase = "read" /\ i <= Len(Argv(gs))
        /\ LET a == Argv(gs)
               t == a[i]
               joined == Len(t) > 2 /\ StartsWith("-C", t)
               v == IF joined THEN DropN(2, t) ELSE IF i < Len(a) THEN a[i + 1] ELSE ""
           IN IF t = "--extern"
              THEN /\ got' = IF KeyOf(NoPrelude(v)) = "compiler_builtins" /\ ValOf(NoPrelude(v)) # <<>> THEN [got EXCEPT !.rlibs = Append(@, ValOf(NoPrelude(v))[1])] ELSE got
                   /\ i' = i + 2
              ELSE IF t = "--crate-name" THEN got' = [got EXCEPT !.name = v] /\ i' = i + 2
              ELSE IF t = "--out-dir" THEN got' = [got EXCEPT !.dir = <<v>>] /\ i' = i + 2
              ELSE IF t = "-C" \/ joined
              THEN /\ got' = IF KeyOf(v) = "extra-filename" THEN [got EXCEPT !.extra = ValOf(v)[1]] ELSE got
                   /\ i' = IF joined THEN i + 1 ELSE i + 2
              ELSE got' = got /\ i' = i + 1
        /\ UNCHANGED <<gs, phase, said, starts, plan, rc>>
Announce == /\ phase = "read" /\ i > Len(Argv(gs))
            /\ IF Refused(got) THEN said' = {} /\ phase' = "done" /\ rc' = 1
               ELSE said' = Markers(got) /\ phase' = "announced" /\ rc' = rc
            /\ UNCHANGED <<gs, i, got, starts, plan>>
Start == /\ phase = "announced"
         /\ IF plan.k = "absent" THEN starts' = starts /\ phase' = "done" /\ rc' = 1
            ELSE starts' = starts + 1 /\ phase' = "started" /\ rc' = rc
         /\ UNCHANGED <<gs, i, got, said, plan>>
Wait == /\ phase = "started" /\ phase' = "done"
        /\ rc' = IF plan.k = "exit" THEN plan.n ELSE 255
        /\ UNCHANGED <<gs, i, got, said, starts, plan>>
Emit == /\ phase = "done" /\ phase' = "told"
        /\ PrintT("CASE " \o ToJson(<<[k \in DOMAIN gs |-> CHOOSE v \in DOMAIN Vocab : Vocab[v] = gs[k]], CHOOSE o \in DOMAIN Outcomes : Outcomes[o] = plan>>))
        /\ UNCHANGED <<gs, i, got, said, starts, plan, rc>>
Next == Pass \/ Begin \/ Read \/ Announce \/ Start \/ Wait \/ Emit
Spec == Init /\ [][Next]_vars

(* prints the vocabulary, for the driver                                        *)
VSpec == Init /\ [][phase = "given" /\ phase' = "told" /\ plan = Outcomes[1] /\ PrintT("VOCAB " \o ToJson(Vocab)) /\ UNCHANGED <<gs, i, got, said, starts, plan, rc>>]_vars

Understood == phase \in {"announced", "started", "done", "told"}
Agree == Understood => got = Compiler(Argv(gs))
Announced == Understood /\ ~Refused(got) => said = Markers(Compiler(Argv(gs)))
Honest == phase \in {"done", "told"} => (rc = 0) = (starts = 1 /\ plan = [k |-> "exit", n |-> 0])
AtMostOnce == starts <= 1
=============================================================================
