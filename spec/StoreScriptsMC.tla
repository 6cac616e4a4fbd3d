--------------------------- MODULE StoreScriptsMC ---------------------------
(* The relations are satisfiable and compose: for every store over a few keys
   some even split exists, all of them re-join to the store, and splitting a
   join of disjoint stores by their keys gives them back.                     *)
EXTENDS StoreScripts
CONSTANTS KS, N
VARIABLE st
Init == \E D \in SUBSET KS : st = {<<k, k + 10>> : k \in D}
Next == UNCHANGED st
Assigns(n) == [KeysOf(st) -> 1..n]
Outs(a, n) == [i \in 1..n |-> {p \in st : a[p[1]] = i}]
SplitExists == \A n \in 1..N : \E a \in Assigns(n) : EvenSplit(st, n, Outs(a, n))
SplitJoins == \A n \in 1..N : \A a \in Assigns(n) : EvenSplit(st, n, Outs(a, n)) => (JoinOK(Outs(a, n)) /\ JoinOut(Outs(a, n)) = st)
SplitSizes == \A n \in 1..N : \A a \in Assigns(n) : EvenSplit(st, n, Outs(a, n)) =>
    \A i \in 1..n : Cardinality(Outs(a, n)[i]) \in {Cardinality(st) \div n, (Cardinality(st) + n - 1) \div n}
ExplicitInverse == \A a \in Assigns(2) : LET o == Outs(a, 2) IN
    /\ ExplicitOK(st, [i \in 1..2 |-> KeysOf(o[i])], TRUE)
    /\ ExplicitOuts(st, [i \in 1..2 |-> KeysOf(o[i])]) = o
Inv == SplitExists /\ SplitJoins /\ SplitSizes /\ ExplicitInverse /\ Functional(st)
=============================================================================
