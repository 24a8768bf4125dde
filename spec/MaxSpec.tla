------------------------------- MODULE MaxSpec ------------------------------
(* What the maximum stack usage of a node of a call graph IS (properties C01, *)
(* C02, C03), declaratively.  A local usage is [x |-> known?, n |-> bytes]; a *)
(* bound is [k |-> "eq" | "ge", n |-> bytes].                                  *)
EXTENDS Common

Comp(R, i) == {j \in R[i] : i \in R[j]} \cup {i}       \* its strongly connected component
Rec(R, i) == i \in R[i]                                 \* it is recursive

LocalN(l) == IF l.x THEN l.n ELSE 0

(* heaviest path over components; a component weighs its heaviest member      *)
RECURSIVE Heaviest(_, _, _, _, _)
Heaviest(S, succ, comp, w, f) ==
  LET f2 == TLCEval([i \in S |->
               w[i] + MaxSet0(UNION {{f[j] : j \in succ[c] \ comp[i]} : c \in comp[i]})])
  IN IF f2 = f THEN f ELSE Heaviest(S, succ, comp, w, f2)

(* [node -> bound]                                                             *)
ExpectedMax(S, succ, local) ==
  LET R == ReachPlus(S, succ)
      comp == TLCEval([i \in S |-> Comp(R, i)])
      w == TLCEval([i \in S |-> MaxSet0({LocalN(local[j]) : j \in comp[i]})])
      heavy == Heaviest(S, succ, comp, w, w)
      certain == TLCEval([i \in S |-> local[i].x /\ (Rec(R, i) => local[i].n = 0)])
      exact(i) == certain[i] /\ \A j \in R[i] : certain[j]
  IN TLCEval([i \in S |-> [k |-> IF exact(i) THEN "eq" ELSE "ge", n |-> heavy[i]]])

(* the clusters: maximal sets of mutually recursive nodes                      *)
ExpectedClusters(S, succ) ==
  LET R == ReachPlus(S, succ) IN {Comp(R, i) : i \in {j \in S : Rec(R, j)}}
=============================================================================
