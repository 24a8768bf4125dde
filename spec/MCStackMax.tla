----------------------------- MODULE MCStackMax -----------------------------
EXTENDS StackMax
W == [i \in 1..N |-> 2^(i - 1)]
=============================================================================
