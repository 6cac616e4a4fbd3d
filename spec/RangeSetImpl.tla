---------------------------- MODULE RangeSetImpl ----------------------------
(* The coalescing insertion as the code performs it (ranges keyed by lower
   bound in a sorted dictionary), shown to refine RangeSet.                 *)
EXTENDS Ranges
VARIABLE dict     \* the ranges, ascending by lower bound
SeqDel(s, P(_)) == SelectSeq(s, LAMBDA r : ~P(r))
InsertByLower(s, r) ==
  LET lower == SelectSeq(s, LAMBDA x : x[1] < r[1])
      upper == SelectSeq(s, LAMBDA x : x[1] > r[1])
  IN lower \o <<r>> \o upper
NoRange == <<>>
LastOf(s) == IF s = <<>> THEN NoRange ELSE s[Len(s)]
ValueBelow(s, c) == LastOf(SelectSeq(s, LAMBDA x : x[1] < c))
ValueAtOrBelow(s, c) == LastOf(SelectSeq(s, LAMBDA x : x[1] <= c))

AddTo(s, r) ==
  IF IsEmpty(r) THEN s
  ELSE LET bl == ValueBelow(s, r[1])
           joins == bl # NoRange /\ (bl # NoRange => r[1] <= bl[2])
           lb == IF joins THEN bl[1] ELSE r[1]
       IN IF joins /\ (joins => r[2] < bl[2]) THEN s
          ELSE LET bu == ValueAtOrBelow(s, r[2])
                   ub == IF bu # NoRange /\ (bu # NoRange => r[2] < bu[2]) THEN bu[2] ELSE r[2]
               IN InsertByLower(SeqDel(s, LAMBDA x : lb <= x[1] /\ x[1] < ub), <<lb, ub>>)

Init == dict = <<>>
Add(r) == dict' = AddTo(dict, r)
Clear == dict' = SeqDel(dict, LAMBDA x : 0 <= x[1] /\ x[1] < TOP)
Next == Clear \/ \E r \in RangeUniverse : Add(r)
Spec == Init /\ [][Next]_dict

abs == UNION {Atoms(dict[i]) : i \in DOMAIN dict}
RS == INSTANCE RangeSet WITH live <- abs, snaps <- <<>>, others <- <<>>
Refines == RS!Spec
InvCanonical == dict = RS!Members(abs)
=============================================================================
