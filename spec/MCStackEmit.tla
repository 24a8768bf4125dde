----------------------------- MODULE MCStackEmit ----------------------------
(* Emits every finished behaviour of StackMax (graph and local usages), to be  *)
(* replayed into the real tool.                                                *)
EXTENDS MCStackMax, Json
Emit == Done => PrintT("CASE " \o ToJson([s |-> succ, l |-> local]))
=============================================================================
