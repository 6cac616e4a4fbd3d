---------------------------- MODULE SpanIndexJudge --------------------------
(* Records: items, kind ("any" or "disjoint"), a query and the item numbers of
   each answer.  Answers are sets up to equality of items: of equal items any
   one may stand for all.                                                     *)
EXTENDS SpanIndex, Judging
VARIABLE x
S(q) == {q[i] : i \in DOMAIN q}
Vals(items, I) == {items[i][3] : i \in I}
\* exactly the matching items, each once
Good(items, got, want) == /\ S(got) \subseteq want
                          /\ Vals(items, S(got)) = Vals(items, want)
                          /\ Len(got) = Cardinality(Vals(items, want))
\* the same item given twice is neither promised nor refused
Unclear(items) == \E i, j \in DOMAIN items : i # j /\ items[i] = items[j]
J(i) == LET r == Recs[i] q == r.q IN
  IF r.kind = "disjoint" /\ Unclear(r.items) THEN TRUE
  ELSE IF r.kind = "disjoint" /\ ~Disjoint(r.items) THEN r.made # "ok" \/ Reject(i, "overlapping items were accepted", "")
  ELSE /\ r.made = "ok" \/ Reject(i, "items were refused", "")
       /\ r.made = "ok" =>
          /\ Good(r.items, r.e, Exact(r.items, q)) \/ Reject(i, "exactly matching", Exact(r.items, q))
          /\ Good(r.items, r.o, Overlapping(r.items, q)) \/ Reject(i, "overlapping", Overlapping(r.items, q))
          /\ Good(r.items, r.d, Contained(r.items, q)) \/ Reject(i, "contained", Contained(r.items, q))
          /\ Good(r.items, r.g, Containing(r.items, q)) \/ Reject(i, "containing", Containing(r.items, q))
Init == x = 0
Next == x = 0 /\ JudgeAll(J) /\ x' = 1
=============================================================================
