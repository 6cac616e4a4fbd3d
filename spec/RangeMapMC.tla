----------------------------- MODULE RangeMapMC -----------------------------
(* Laws of range maps over every short sequence of pairs and every maximal
   arrangement of keys, and the expected answers, one state per map.        *)
EXTENDS RangeMap, Json, TLC
VARIABLE ps
Pairs1 == {<<[k |-> a, x |-> 1]>> : a \in RangeUniverse}
Pairs2 == {<<[k |-> a, x |-> 1], [k |-> b, x |-> 2]>> : a \in RangeUniverse, b \in RangeUniverse}
FromMembers(S) == LET m == Members(S) IN [i \in DOMAIN m |-> [k |-> m[i], x |-> i]]
Full == {FromMembers(S) : S \in SUBSET AllAtoms}
MInit == ps \in ({<<>>} \cup Pairs1 \cup Pairs2 \cup Full) /\ live = {} /\ snaps = <<>> /\ others = <<>>
MNext == UNCHANGED <<ps, live, snaps, others>>

\* disjointness, read on the points: buildable keys cover disjoint, non-adjacent point sets
LawBuildable == Buildable(ps) <=>
   /\ Cardinality(MembersSet(UNION {Atoms(k) : k \in Keys(ps)})) = Cardinality(Keys(ps))
   /\ \A k \in Keys(ps) : ~IsEmpty(k)
LawFunction == Buildable(ps) => \A v \in Values :
   /\ Cardinality({k \in Keys(ps) : Has(k, v)}) <= 1
   /\ Len(MapQuery([op |-> "map_get", v |-> v], ps)) <= 1
   /\ MapQuery([op |-> "map_contains", v |-> v], ps) = B(MapQuery([op |-> "map_get", v |-> v], ps) # <<>>)

\* RangeUniverse in a fixed order
RECURSIVE Order(_)
Order(S) == IF S = {} THEN <<>>
            ELSE LET r == CHOOSE r \in S : \A s \in S : r[1] < s[1] \/ (r[1] = s[1] /\ r[2] <= s[2])
                 IN <<r>> \o Order(S \ {r})
AsSeq == Order(RangeUniverse)
E(c) == MapEval([ps |-> ps] @@ c)
Rec == [ps |-> ps, build |-> E([op |-> "build"]),
        vq |-> IF Buildable(ps)
               THEN [o \in MapValueQueries |-> [v \in Values |-> E([op |-> o, v |-> v])]] ELSE <<>>,
        enclosed |-> IF Buildable(ps)
               THEN [i \in DOMAIN AsSeq |-> E([op |-> "map_enclosed", q |-> AsSeq[i]])] ELSE <<>>,
        dict |-> E([op |-> "map_dict"]), empty |-> E([op |-> "map_empty"])]
Visit == /\ PrintT(ToJson(Rec))
         /\ ps = <<>> => PrintT(ToJson([universe |-> AsSeq]))
=============================================================================
