--------------------------- MODULE RangeSetExport ---------------------------
(* Export of every state, every addition in it and every query on it. *)
EXTENDS RangeSet, Json, IOUtils, TLC, SequencesExt
AsSeq == SetToSeq(RangeUniverse)
Adds(S) == [i \in DOMAIN AsSeq |-> FlatSeq(Members(S \cup Atoms(AsSeq[i])))]
StateRec(S) == [members |-> Members(S), adds |-> Adds(S)]
ValueRec(S) == [op \in ValueQueries |-> [v \in Values |-> QueryValue(op, MembersSet(S), v)]]
RangeRec(S) == [op \in RangeQueries |-> [i \in DOMAIN AsSeq |-> QueryRange(op, MembersSet(S), AsSeq[i])]]
WholeRec(S) == [op \in WholeQueries |-> QueryWhole(op, MembersSet(S))]
QueryRec(S) == [members |-> Members(S), vq |-> ValueRec(S), rq |-> RangeRec(S), wq |-> WholeRec(S)]
Rec(S) == IF IOEnv.WHAT = "adds" THEN StateRec(S) ELSE QueryRec(S)

\* one model state per point set; printed as it is visited
EInit == live \in SUBSET AllAtoms /\ snaps = <<>> /\ others = <<>>
ENext == UNCHANGED vars
Visit == /\ PrintT(ToJson(Rec(live)))
         /\ live = {} => PrintT(ToJson([universe |-> AsSeq]))
=============================================================================
