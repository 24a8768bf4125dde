-------------------------------- MODULE Builds ------------------------------
(* What builds leave in the target directory, and which of it belongs to a      *)
(* request (C16).                                                               *)
(*                                                                              *)
(* Cargo names an executable after the target it builds, [triple/]release/NAME  *)
(* for binaries and [triple/]release/examples/NAME for examples; what rustc     *)
(* emits next to it is named after the crate -- the name with dashes replaced   *)
(* -- and the build's metadata hash, in release/deps for binaries.              *)
EXTENDS Common, Json

RECURSIVE Crate(_)
Crate(s) == IF s = "" THEN "" ELSE (IF SubSeq(s, 1, 1) = "-" THEN "_" ELSE SubSeq(s, 1, 1)) \o Crate(DropN(1, s))
Release(base, triple) == base \o (IF triple = "" THEN "/release" ELSE "/" \o triple \o "/release")
ElfPath(base, triple, kind, name) == Release(base, triple) \o (IF kind = "example" THEN "/examples/" ELSE "/") \o name
IrDir(base, triple, kind) == Release(base, triple) \o (IF kind = "example" THEN "/examples/" ELSE "/deps/")
EndsWith(e, s) == Len(s) >= Len(e) /\ SubSeq(s, Len(s) - Len(e) + 1, Len(s)) = e
NoSep(s) == \A i \in 1..Len(s) : SubSeq(s, i, i) \notin {"/", "-"}
(* a file [p |-> path, ..] is IR of this crate, here                            *)
IsIr(f, base, triple, kind, name) ==
  LET pre == IrDir(base, triple, kind) \o Crate(name) \o "-"
  IN StartsWith(pre, f.p) /\ EndsWith(".ll", f.p) /\ NoSep(SubSeq(f.p, Len(pre) + 1, Len(f.p) - 3))
At(disk, p) == {f \in disk : f.p = p}
IrFiles(disk, base, triple, kind, name) == {f \in disk : IsIr(f, base, triple, kind, name)}
Freshest(S) == CHOOSE f \in S : \A g \in S : g.t <= f.t
ObjOf(p) == SubSeq(p, 1, Len(p) - 3) \o ".o"
(* the three files a request is analyzed from; {} where there is none           *)
Selected(disk, base, triple, kind, name) ==
  LET ir == IrFiles(disk, base, triple, kind, name)
      ll == IF ir = {} THEN {} ELSE {Freshest(ir)}
  IN [elf |-> At(disk, ElfPath(base, triple, kind, name)), ll |-> ll, o |-> UNION {At(disk, ObjOf(f.p)) : f \in ll}]

(* ----------------------------------------------------- histories of builds --- *)
CONSTANTS Names, Triples, Kinds, Hashes, Depth
VARIABLES disk, clock, hist, last
bvars == <<disk, clock, hist, last>>
Put(d, fs) == {f \in d : ~\E g \in fs : g.p = f.p} \cup fs
(* a build `b` at time t; a plain `cargo build` emits neither IR nor object      *)
Left(b, t) ==
  LET stem == IrDir("target", b.triple, b.kind) \o Crate(b.name) \o "-" \o b.hash
  IN {[p |-> ElfPath("target", b.triple, b.kind, b.name), b |-> t, t |-> t]}
     \cup (IF b.emits THEN {[p |-> stem \o ".ll", b |-> t, t |-> t], [p |-> stem \o ".o", b |-> t, t |-> t]} ELSE {})
AllBuilds == [name : Names, triple : Triples, kind : Kinds, hash : Hashes, emits : BOOLEAN]
BInit == disk = {} /\ clock = 0 /\ hist = <<>> /\ last = "history"
Earlier == /\ last = "history" /\ Len(hist) < Depth
           /\ \E b \in AllBuilds : disk' = Put(disk, Left(b, clock + 1)) /\ hist' = Append(hist, b)
           /\ clock' = clock + 1 /\ last' = last
(* the tool's own build                                                        *)
Final == /\ last = "history" /\ Len(hist) = Depth
         /\ \E b \in {x \in AllBuilds : x.emits} : disk' = Put(disk, Left(b, clock + 1)) /\ hist' = Append(hist, b)
         /\ clock' = clock + 1 /\ last' = "built"
Tell == /\ last = "built" /\ last' = "told" /\ PrintT("CASE " \o ToJson(hist)) /\ UNCHANGED <<disk, clock, hist>>
BNext == Earlier \/ Final \/ Tell
BSpec == BInit /\ [][BNext]_bvars
Fresh == last \in {"built", "told"} =>
           LET b == hist[Len(hist)]
               s == Selected(disk, "target", b.triple, b.kind, b.name)
           IN {f.b : f \in s.elf} = {clock} /\ {f.b : f \in s.ll} = {clock} /\ {f.b : f \in s.o} = {clock}
=============================================================================
