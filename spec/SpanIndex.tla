------------------------------ MODULE SpanIndex -----------------------------
(* Items with spans: a sequence of <<start, end, value>>; different items may
   have equal values (then they are equal).  An index's answers, as sets of
   item numbers.                                                              *)
EXTENDS Spans
Sp(it) == <<it[1], it[2]>>
Select(items, P(_)) == {i \in DOMAIN items : P(Sp(items[i]))}
Exact(items, q) == Select(items, LAMBDA s : s = q)
Overlapping(items, q) == Select(items, LAMBDA s : Overlaps(s, q))
Contained(items, q) == Select(items, LAMBDA s : ContainsSpan(q, s))
Containing(items, q) == Select(items, LAMBDA s : ContainsSpan(s, q))
Disjoint(items) == \A i, j \in DOMAIN items : i # j => ~Overlaps(Sp(items[i]), Sp(items[j]))
=============================================================================
