------------------------------- MODULE Common -------------------------------
(* Small helpers shared by every module: folding, joins, strings, graphs.     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

MaxSet(S) == CHOOSE x \in S : \A y \in S : x >= y
MaxSet0(S) == IF S = {} THEN 0 ELSE MaxSet(S)

StartsWith(p, s) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
DropN(n, s) == SubSeq(s, n + 1, Len(s))

RECURSIVE JoinStr(_, _)
JoinStr(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1]
                    ELSE ss[1] \o sep \o JoinStr(Tail(ss), sep)

(* first element of a sequence satisfying P, as a sequence of length 0 or 1   *)
FirstOf(s, P(_)) == LET is == {i \in DOMAIN s : P(s[i])}
                    IN IF is = {} THEN <<>> ELSE <<s[Min(is)]>>

(* ---------------------------------------------------------------- graphs --*)
(* succ: function node -> set of nodes. Strict transitive closure (>= 1 step) *)
RECURSIVE Closure(_, _)
Closure(S, r) ==
  LET r2 == TLCEval([i \in S |-> r[i] \cup UNION {r[j] : j \in r[i]}])
  IN IF r2 = r THEN r ELSE Closure(S, r2)
ReachPlus(S, succ) == Closure(S, TLCEval([i \in S |-> succ[i]]))

RECURSIVE ReachFrom(_, _)
ReachFrom(succ, seen) == LET n == seen \cup UNION {succ[i] : i \in seen}
                         IN IF n = seen THEN seen ELSE ReachFrom(succ, n)
=============================================================================
