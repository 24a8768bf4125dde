------------------------------- MODULE IrTypes ------------------------------
(* The types LLVM prints in signatures (C12), built by wrapping: every state is  *)
(* a type, every step puts one constructor around it.  A module is written with  *)
(* opaque or with typed pointers throughout.                                     *)
EXTENDS Common, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
Typed == IOEnv.TYPED = "1"

I(n) == [k |-> "int", n |-> n]
Named(s) == [k |-> "alias", s |-> s]
Ptr(t) == [k |-> "ptrto", t |-> t]
Fn(ins, out) == [k |-> "fn", g |-> [ins |-> ins, out |-> out]]
Scalars == {I(1), I(8), I(32), I(128), [k |-> "float"], [k |-> "double"]}
Leaves == Scalars \cup {Named("A"), Named("A.1"), Named("core::fmt::A<'_>"), Named("0"), Named("x")} \cup (IF Typed THEN {} ELSE {[k |-> "ptr"]})
Partner == {I(8), [k |-> "double"], Named("x")}
\* whatever can be put around t
Wraps(t) ==
  LET one == {[k |-> "arr", n |-> n, t |-> t] : n \in {0, 1, 2, 300}}
             \cup (IF t \in Scalars \cup {[k |-> "ptr"]} THEN {[k |-> "vec", n |-> n, t |-> t] : n \in {1, 2, 16}} ELSE {})
             \cup {[k |-> q, f |-> f] : q \in {"st", "pst"}, f \in {<<>>, <<t>>, <<t, t>>} \cup {<<t, x>> : x \in Partner} \cup {<<x, t>> : x \in Partner}}
      ptrs == IF ~Typed THEN {} ELSE
              {Ptr(t)} \cup {Ptr(Fn(ins, out)) : ins \in {<<>>, <<t>>, <<t, I(32)>>, <<t, [k |-> "va"]>>}, out \in {<<>>, <<t>>, <<I(32)>>}}
  IN one \cup ptrs
VARIABLES t, d
Init == t \in Leaves /\ d = 0
Next == d < Depth /\ d' = d + 1 /\ t' \in Wraps(t)
Spec == Init /\ [][Next]_<<t, d>>
Emit == PrintT("CASE " \o ToJson(t))
=============================================================================
