-------------------------------- MODULE Spans -------------------------------
(* Spans of offsets: pairs <<s, e>> with s < e, covering s .. e-1.  The
   operations as arithmetic on the ends; SpansMC shows that they are what they
   should be on the sets of offsets covered.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Mx(a, b) == IF a > b THEN a ELSE b
Mn(a, b) == IF a < b THEN a ELSE b
IsSpan(a) == a[1] < a[2]
Cover(a) == a[1]..(a[2] - 1)
ContainsOffset(a, i) == a[1] <= i /\ i < a[2]
ContainsSpan(a, b) == a[1] <= b[1] /\ b[2] <= a[2]
Precedes(a, b) == a[2] <= b[1]
Follows(a, b) == b[2] <= a[1]
Overlaps(a, b) == a[1] < b[2] /\ b[1] < a[2]
\* none: <<>>
Meet(a, b) == IF Overlaps(a, b) THEN <<Mx(a[1], b[1]), Mn(a[2], b[2])>> ELSE <<>>
Shift(a, n) == <<a[1] + n, a[2] + n>>
Length(a) == a[2] - a[1]
RECURSIVE Enclose(_)
Enclose(q) == IF Len(q) = 1 THEN Head(q)
              ELSE LET r == Enclose(Tail(q)) IN <<Mn(Head(q)[1], r[1]), Mx(Head(q)[2], r[2])>>
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] > b[2])
\* insertion into a sorted sequence, after its equals: a stable sort
RECURSIVE Insert(_, _)
Insert(q, a) == IF q = <<>> THEN <<a>> ELSE IF Before(a, Head(q)) THEN <<a>> \o q ELSE <<Head(q)>> \o Insert(Tail(q), a)
RECURSIVE Sorted(_)
Sorted(q) == IF q = <<>> THEN <<>> ELSE Insert(Sorted(SubSeq(q, 1, Len(q) - 1)), q[Len(q)])
\* crossing: they overlap, and neither contains the other
Crosses(a, b) == Overlaps(a, b) /\ ~ContainsSpan(a, b) /\ ~ContainsSpan(b, a)
=============================================================================
