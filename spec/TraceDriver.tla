----------------------------- MODULE TraceDriver ----------------------------
(* Recorded runs of the real tool in a scratch project, from its arguments to   *)
(* its exit.  A record r:                                                       *)
(*  tc ar kind file flag feats allf verbose      environment and arguments       *)
(*  conf host os  tenv tconf ws cwd   configured target and directories          *)
(*  disk         [p, b, t, ok]: files below the scratch root; b names the build  *)
(*               that produced a file, t orders their times                      *)
(*  said endl    what the build wrote to stderr, as lines; whether the last ends *)
(*  out full     how the build ended; whether stdout could not be written        *)
(*  srcs root    sources [p, d, same]: time in ms relative to the start of the   *)
(*               run, as cargo found it; the requested artifact's root           *)
(*  o            what was seen: exit status, stdout, which ELF, IR, object, ...   *)
(*  calls        the cargo processes: [argv, wrapper, marker, cwd]                *)
EXTENDS Builds, Driver, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
Say(b, what) == IF b THEN <<>> ELSE <<what>>
Thumb == {"thumbv6m-none-eabi", "thumbv7m-none-eabi", "thumbv7em-none-eabi", "thumbv7em-none-eabihf"}
RLIB == "@CARGO_CALL_STACK:compiler_builtins_rlib_path@"
LL == "@CARGO_CALL_STACK:compiler_builtins_ll_path@"

Triple(r) == IF r.flag # "" THEN r.flag ELSE r.conf
Base(r) == IF r.tenv # "" THEN r.tenv ELSE IF r.tconf # "" THEN r.tconf ELSE IF r.ws THEN "ws/target" ELSE "ws/app/target"
Disk(r) == Range(r.disk)
Sel(r) == Selected(Disk(r), Base(r), Triple(r), r.kind, r.file)
LastOf(r, m) == LET s == SelectSeq(r.said, LAMBDA l : StartsWith(m, l)) IN IF s = <<>> THEN "" ELSE DropN(Len(m), s[Len(s)])
Cb(r) == [ll |-> At(Disk(r), LastOf(r, LL)), rlib |-> At(Disk(r), LastOf(r, RLIB))]
Readable(S) == S # {} /\ \A f \in S : f.ok
Reached(r) == Good(r.tc) /\ Named(r.ar)
BuildOk(r) == Reached(r) /\ r.out = [k |-> "exit", n |-> 0]
Complete(r) == LET s == Sel(r) c == Cb(r) IN Readable(s.elf) /\ Readable(s.ll) /\ Readable(s.o) /\ Readable(c.ll) /\ Readable(c.rlib)
Well(r) == BuildOk(r) /\ Complete(r) /\ ~r.full
B(S) == {f.b : f \in S}

(* C16 *)
JFresh(r) ==
  IF ~Well(r) THEN <<>>
  ELSE LET s == Sel(r) c == Cb(r)
       IN IF r.o.rc # 0 THEN <<<<"failed", r.o.rc, r.o.note>>>>
          ELSE Say(Range(r.o.e) = B(s.elf), <<"executable of build", r.o.e, B(s.elf)>>)
               \o Say(Range(r.o.l) = B(s.ll), <<"IR of build", r.o.l, B(s.ll)>>)
               \o Say({r.o.ob} = B(s.o), <<"object of build", r.o.ob, B(s.o)>>)
               \o Say(Range(r.o.cl) = B(c.ll), <<"IR of compiler_builtins", r.o.cl, B(c.ll)>>)
               \o Say({r.o.cr} = B(c.rlib), <<"rlib of compiler_builtins", r.o.cr, B(c.rlib)>>)
               \o Say(r.o.m = ((IF Triple(r) = "" THEN r.host ELSE Triple(r)) \in Thumb), <<"machine code", r.o.m>>)

(* C17 *)
RECURSIVE Forwarded(_, _, _)
Forwarded(ls, i, endl) ==
  IF i > Len(ls) THEN ""
  ELSE (IF StartsWith(RLIB, ls[i]) \/ StartsWith(LL, ls[i]) THEN "" ELSE ls[i] \o (IF i < Len(ls) \/ endl THEN "\n" ELSE ""))
       \o Forwarded(ls, i + 1, endl)
JHonest(r) ==
  Say(Well(r) => r.o.rc = 0 /\ r.o.graph, <<"failed", r.o.rc, r.o.note>>)
  \o Say(~Well(r) => r.o.rc # 0, "success although something failed")
  \o Say(~Well(r) /\ ~r.full => ~r.o.graph, "a graph although something failed")
  \o Say(Reached(r) /\ r.out.k = "exit" /\ r.out.n # 0 => r.o.rc = r.out.n, <<"exit status", r.o.rc>>)
  \o Say(Reached(r) /\ r.out.k # "absent" => StartsWith(Forwarded(r.said, 1, r.endl), IF r.verbose THEN r.err1 ELSE r.err), <<"stderr", r.err>>)
  \o Say(~StartsWith(RLIB, r.err) /\ ~StartsWith(LL, r.err), "a marker line on stderr")

(* C24 *)
RECURSIVE Opts(_, _)
Opts(a, i) ==
  IF i > Len(a) THEN {}
  ELSE IF a[i] \in {"--target", "--features", "-F", "--example", "--bin", "--profile", "-Z", "-C", "--emit", "--color", "-p", "--package", "--manifest-path", "--target-dir"} /\ i < Len(a)
       THEN {<<a[i], a[i + 1]>>} \cup Opts(a, i + 2)
  ELSE LET eq == {j \in 2..Len(a[i]) : SubSeq(a[i], j, j) = "="}
           opt == IF eq = {} THEN a[i] ELSE SubSeq(a[i], 1, Min(eq) - 1)
           val == IF eq = {} THEN "" ELSE DropN(Min(eq), a[i])
       IN (IF StartsWith("-Z", a[i]) \/ (StartsWith("-C", a[i]) /\ Len(a[i]) > 2) THEN {<<SubSeq(a[i], 1, 2), DropN(2, a[i])>>}
           ELSE IF eq # {} /\ StartsWith("--", a[i]) THEN {<<opt, val>>}
           ELSE {<<a[i], "">>}) \cup Opts(a, i + 1)
RECURSIVE SplitBy(_, _, _)
SplitBy(s, c, cur) == IF s = "" THEN {cur} ELSE IF SubSeq(s, 1, 1) = c THEN {cur} \cup SplitBy(DropN(1, s), c, "") ELSE SplitBy(DropN(1, s), c, cur \o SubSeq(s, 1, 1))
JRequest(r) ==
  IF ~Reached(r) \/ r.out.k = "absent" THEN <<>>
  ELSE LET mine == SelectSeq(r.calls, LAMBDA x : Len(x.argv) > 0 /\ x.argv[1] \in {"rustc", "build"})
           x == mine[1]
           a == x.argv
           dd == {i \in DOMAIN a : a[i] = "--"}
           own == Opts(IF dd = {} THEN a ELSE SubSeq(a, 1, Min(dd) - 1), 2)
           comp == IF dd = {} THEN {} ELSE Opts(SubSeq(a, Min(dd) + 1, Len(a)), 1)
           vals(S, o) == {p[2] : p \in {q \in S : q[1] = o}}
           std == {z \in vals(own, "-Z") : StartsWith("build-std", z)}
           feats == vals(own, "--features") \cup vals(own, "-F")
           wantStd(z) == IF r.os = "none" THEN StartsWith("build-std=", z) /\ SplitBy(DropN(10, z), ",", "") = {"core", "alloc", "compiler_builtins"}
                         ELSE z = "build-std" \/ (StartsWith("build-std=", z) /\ "std" \in SplitBy(DropN(10, z), ",", ""))
           emit == UNION {SplitBy(v, ",", "") : v \in vals(comp, "--emit")}
       IN Say(Len(mine) = 1, <<"builds", Len(mine)>>)
          \o Say(Len(mine) # 1 \/ a[1] = "rustc", "not cargo rustc")
          \o IF Len(mine) # 1 THEN <<>>
             ELSE Say(vals(own, "--target") = (IF r.flag = "" THEN {} ELSE {r.flag}), <<"--target", vals(own, "--target")>>)
                  \o Say(vals(own, "--example") = (IF r.kind = "example" THEN {r.file} ELSE {}) /\ vals(own, "--bin") = (IF r.kind = "bin" THEN {r.file} ELSE {}),
                         <<"requested", own>>)
                  \o Say(r.allf = (<<"--all-features", "">> \in own), "--all-features")
                  \o Say(IF r.allf THEN feats \subseteq (IF r.feats = <<>> THEN {} ELSE {r.feats[1]}) ELSE feats = (IF r.feats = <<>> THEN {} ELSE {r.feats[1]}), <<"features", feats>>)
                  \o Say(<<"--release", "">> \in own \/ <<"-r", "">> \in own \/ <<"--profile", "release">> \in own, "not a release build")
                  \o Say(Cardinality(std) = 1 /\ \A z \in std : wantStd(z), <<"standard library", std>>)
                  \o Say({"llvm-ir", "obj"} \subseteq emit, <<"--emit", emit>>)
                  \o Say(vals(comp, "-C") = {"lto=fat", "embed-bitcode=yes"}, <<"codegen options", vals(comp, "-C")>>)
                  \o Say({p[1] : p \in own} \cap {"--no-default-features", "-p", "--package", "--lib", "--manifest-path", "--target-dir", "--bins", "--examples"} = {}, <<"other options", own>>)
                  \o Say(x.wrapper /\ x.marker, "the tool is not the compiler wrapper")
                  \o Say(x.cwd, "another working directory")
JTouch(r) ==
  IF ~Reached(r) \/ r.out.k = "absent" THEN <<>>
  ELSE Say(\E s \in Range(r.srcs) : s.p \in {r.root, "src/lib.rs"} /\ s.d >= -50, <<"sources are not newer than the last build", r.srcs>>)
       \o Say(\A s \in Range(r.srcs) : s.same, "a file of the project changed")
       \o Say(r.added = <<>>, <<"files appeared", r.added>>)

Judge1(r) == CASE Prop = "C16" -> JFresh(r) [] Prop = "C17" -> JHonest(r) [] Prop = "C24" -> JRequest(r) \o JTouch(r)
VARIABLES k, verdict
TInit == /\ k \in DOMAIN Trace /\ verdict = "given"
         /\ disk = {} /\ clock = 0 /\ hist = <<>> /\ last = ""
         /\ tc = "" /\ ar = "" /\ out = <<>> /\ an = "" /\ fa = "" /\ phase = "" /\ touched = FALSE /\ builds = 0 /\ printed = "" /\ rc = 0
TNext == /\ verdict = "given"
         /\ LET j == Judge1(Trace[k])
            IN verdict' = IF j = <<>> THEN "allowed"
                          ELSE IF PrintT("REFUSED " \o Trace[k].id \o " " \o ToString(j)) THEN "refused" ELSE "refused"
         /\ UNCHANGED <<k, bvars, dvars>>
TSpec == TInit /\ [][TNext]_<<k, verdict, bvars, dvars>>
=============================================================================
