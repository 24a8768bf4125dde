------------------------------- MODULE Notices ------------------------------
(* What the tool says about the program while it analyzes it: every            *)
(* assumption it had to make, and no other.  t is a sequence of records        *)
(* [k, n]: the kind of the notice and the name it is about (kinds: see          *)
(* mbv/harness.py:NOTICES).                                                      *)
EXTENDS Pair

Told(t, k) == {x.n : x \in {y \in Range(t) : y.k = k}}
(* the functions in W, and nothing else, are named by notices of a kind         *)
About(c, t, k, W, may) ==
  LET T == Told(t, k)
  IN Say(\A a \in W : Range(NamesAt(c, a)) \cap T # {}, <<k, "not said of", {NamesAt(c, a) : a \in {b \in W : Range(NamesAt(c, b)) \cap T = {}}}>>)
     \o LET odd == {n \in T : n \notin may /\ ~\E a \in W : n \in Range(NamesAt(c, a))}
        IN Say(odd = {}, <<k, "said of", odd>>)
Once(t, k, b) == Say(b <=> Told(t, k) # {}, <<k, "said", Told(t, k) # {}>>)

(* intrinsics assumed, not known, to become instructions                        *)
Assumed(f) == f = "llvm.x86.sse2.pause" \/ (IsSilent(f) /\ f \notin Silent /\ ~StartsWith("llvm.lifetime.", f))
AssumedIn(c) == IF IsThumb(c) THEN {} ELSE UNION {{s.f : s \in {x \in Range(d.st) : x.k = "direct" /\ Assumed(x.f)}} : d \in Range(LiveDefs(c))}
LiveAsm(c) == {a \in Addrs(c) : \E d \in Range(LiveDefs(c)) : d.name \in Range(NamesAt(c, a)) /\ \E s \in Range(d.st) : s.k = "asm"}
Overridden(c, mc) == {a \in Addrs(c) : LET r == Recorded(c, a) l == LocalAt(c, mc, a) IN r # <<>> /\ l.st = "known" /\ l.n # r[1]}
Blind(c, mc) == IF IsThumb(c) THEN {a \in Addrs(c) : mc[a].ind /\ ~DefinedAt(c, a)} ELSE {}

JNotices(c, t) ==
  LET mc == McAll(c)
      lonely == {s[2] : s \in SigInfo(c).lonely}
  IN About(c, t, "asm", LiveAsm(c), {})
     \o About(c, t, "untyped", {a \in Addrs(c) : UntypedAt(c, a)}, {})
     \o About(c, t, "nostack", {a \in Addrs(c) : LocalAt(c, mc, a).st = "unknown"}, Called(c))
     \o About(c, t, "overridden", Overridden(c, mc), {})
     \o About(c, t, "blind", Blind(c, mc), {})
     \o Say(Told(t, "lowers") = AssumedIn(c), <<"intrinsics", AssumedIn(c), Told(t, "lowers")>>)
     \o Say(lonely \subseteq Told(t, "nobody") /\ Told(t, "nobody") \subseteq lonely \cup SigInfo(c).raw, <<"signatures nobody has", lonely, Told(t, "nobody")>>)
     \o Once(t, "unbounded", HasUntyped(c))
     \o Once(t, "nomax", ~HasRecords(c))

(* with a start point: whether it was understood                                *)
JUnfiltered(c, o, q) ==
  LET hit == Resolve(c, Ids(c, o), q.start)
  IN IF q.o.rc # 0 THEN <<>> ELSE Once(q.told, "nostart", hit = {}) \o JNotices(c, q.told)
JTold(c, o, t, ps) ==
  IF MustFail(c, McAll(c)) THEN Say(o.rc # 0, "must fail, but did not")
  ELSE IF o.rc # 0 \/ ~o.ok THEN <<<<"failed", o.rc, o.note>>>>
  ELSE JNotices(c, t) \o Once(t, "nostart", FALSE) \o JoinSeqs([k \in DOMAIN ps |-> JUnfiltered(c, o, ps[k])])
=============================================================================
