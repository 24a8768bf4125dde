------------------------------ MODULE StackMax ------------------------------
(* The bound computation as a state machine: components of the call graph are *)
(* finished one at a time, in ANY order in which callees come first.  Checked: *)
(* the outcome is always the declarative MaxSpec, and MaxSpec means what a     *)
(* user relies on: it bounds every path, is attained, and is exact only when   *)
(* nothing unknown or recursive can add to it.                                 *)
EXTENDS MaxSpec
CONSTANTS N,          \* number of nodes
          Weights     \* Weights[i]: the non-zero local usage node i may have
VARIABLES succ, local, val, todo
vars == <<succ, local, val, todo>>
S == 1..N
Undef == [k |-> "undef", n |-> 0]

Init == /\ succ \in [S -> SUBSET S]
        /\ \E c \in [S -> {"zero", "some", "unknown"}] :
             local = [i \in S |-> [x |-> c[i] # "unknown", n |-> IF c[i] = "some" THEN Weights[i] ELSE 0]]
        /\ val = [i \in S |-> Undef]
        /\ todo = S

Join(a, b) == [k |-> IF a.k = "eq" /\ b.k = "eq" THEN "eq" ELSE "ge", n |-> IF a.n > b.n THEN a.n ELSE b.n]
Plus(a, b) == [k |-> IF a.k = "eq" /\ b.k = "eq" THEN "eq" ELSE "ge", n |-> a.n + b.n]
FromLocal(l) == IF l.x THEN [k |-> "eq", n |-> l.n] ELSE [k |-> "ge", n |-> 0]
Zero == [k |-> "eq", n |-> 0]
JoinAll(B) == FoldSet(Join, Zero, B)

(* finish the component C                                                      *)
Finish(C) ==
  LET out == UNION {succ[i] : i \in C} \ C
      isCycle == Cardinality(C) > 1 \/ \E i \in C : i \in succ[i]
      own == JoinAll({FromLocal(local[i]) : i \in C})
      own2 == IF isCycle /\ own.n # 0 THEN [own EXCEPT !.k = "ge"] ELSE own
      callees == JoinAll({val[j] : j \in out})
  IN /\ \A j \in out : val[j] # Undef
     /\ val' = [i \in S |-> IF i \in C THEN Plus(callees, own2) ELSE val[i]]
     /\ todo' = todo \ C
     /\ UNCHANGED <<succ, local>>

Next == \E i \in todo : Finish(Comp(ReachPlus(S, succ), i))
Spec == Init /\ [][Next]_vars

Done == todo = {}
(* the machine agrees with the declarative definition, in every order          *)
Agrees == Done => val = ExpectedMax(S, succ, local)
(* progress: nothing but a finished computation is stuck                       *)
NoStuck == todo # {} => ENABLED Next
(* ---- what the bound means, stated over walks of the graph ---------------- *)
(* all walks of at most N+1 nodes from i, as sequences                         *)
RECURSIVE Walks(_, _)
Walks(W, k) == IF k = 0 THEN W ELSE
  LET more == {Append(w, j) : w \in W, j \in S} 
      ok == {w \in more : w[Len(w)] \in succ[w[Len(w) - 1]]}
  IN W \cup Walks(ok, k - 1)
RECURSIVE Sum(_)
Sum(w) == IF w = <<>> THEN 0 ELSE LocalN(local[Head(w)]) + Sum(Tail(w))
Meaning ==
  Done => \A i \in S :
    LET ws == Walks({<<i>>}, N)
        sums == {Sum(w) : w \in ws}
        reach == {w[Len(w)] : w \in ws}
    IN /\ val[i].k = "eq" =>            \* exact: nothing exceeds it, something attains it, nothing unknown below
            /\ \A s \in sums : s <= val[i].n
            /\ val[i].n \in sums
            /\ \A j \in reach : local[j].x
       /\ val[i].k = "ge" =>            \* lower bound: attained (walk long enough), and there is a reason
            /\ \E s \in {Sum(w) : w \in Walks({<<i>>}, 2 * N)} : s >= val[i].n
            /\ \/ \E j \in reach : ~local[j].x
               \/ \E w \in ws : \E a, b \in DOMAIN w : a < b /\ w[a] = w[b] /\ Sum(SubSeq(w, a, b)) > 0
       /\ \A j \in succ[i] : val[i].n >= val[j].n    \* never less than a callee's
       /\ val[i].n >= LocalN(local[i])
=============================================================================
