------------------------------ MODULE SpansJudge ----------------------------
EXTENDS Spans, Judging
VARIABLE x
Is(i, r, want) == (r.res = "ok" /\ r.out = want) \/ Reject(i, r.op, want)
B(v) == IF v THEN <<1>> ELSE <<0>>
J(i) == LET r == Recs[i] a == r.a b == r.b IN
  CASE r.op = "make" -> IF IsSpan(a) THEN Is(i, r, a) ELSE (r.res # "ok" \/ Reject(i, "an empty or inverted span was made", ""))
    [] r.op = "contains_offset" -> Is(i, r, B(ContainsOffset(a, r.n)))
    [] r.op = "contains" -> Is(i, r, B(ContainsSpan(a, b)))
    [] r.op = "precedes" -> Is(i, r, B(Precedes(a, b)))
    [] r.op = "follows" -> Is(i, r, B(Follows(a, b)))
    [] r.op = "overlaps" -> Is(i, r, B(Overlaps(a, b)))
    [] r.op = "meet" -> Is(i, r, Meet(a, b))
    [] r.op = "shift" -> Is(i, r, Shift(a, r.n))
    [] r.op = "len" -> Is(i, r, <<Length(a)>>)
    [] r.op = "range" -> Is(i, r, <<IF ContainsOffset(a, r.n) THEN 1 ELSE 0, a[1], a[2] - 1>>)
    [] r.op = "equal" -> Is(i, r, <<IF a = b THEN 1 ELSE 0, IF a = b THEN 1 ELSE 0>>)
    [] r.op = "copy" -> Is(i, r, a)
    [] r.op = "enclose" -> IF r.coll = <<>> THEN (r.res = "ValueError" \/ Reject(i, "no spans were enclosed", "ValueError"))
                           ELSE Is(i, r, Enclose(r.coll))
    [] r.op = "sort" -> Is(i, r, Sorted(r.coll))
Init == x = 0
Next == x = 0 /\ JudgeAll(J) /\ x' = 1
=============================================================================
