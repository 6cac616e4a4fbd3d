--------------------------- MODULE IterUtilsJudge ---------------------------
(* Records of uses of the utilities.  s: the input (or the part of an unending
   one which matters); take: outputs asked for, -1 for all; out: outputs got;
   pulls: input elements taken when the i-th output had been given; first:
   input elements taken before any output was asked for; boom: 0, or the input
   fails when its boom-th element is asked for.                              *)
EXTENDS IterUtils, Judging
VARIABLE x
Upto(q, n) == IF n < 0 \/ n >= Len(q) THEN q ELSE SubSeq(q, 1, n)
All(r) == CASE r.op = "windowed" -> Windows(r.s, r.w, r.partial)
            [] r.op = "drop" -> Drop(r.s, r.w)
            [] r.op = "nonnone" -> NonNone(r.s)
            [] r.op = "flatten" -> Flatten(r.s)
Need(r, i) == CASE r.op = "windowed" -> NeedWindow(i, r.w)
                [] r.op = "drop" -> NeedDrop(i, r.w)
                [] r.op = "nonnone" -> NeedNonNone(r.s, i)
\* outputs known from the elements before the failing one
Before(r) == LET a == All([r EXCEPT !.s = SubSeq(r.s, 1, r.boom - 1)]) IN
             {i \in 1..Len(a) : Need(r, i) < r.boom}
Want(r) == IF r.boom > 0 THEN Upto(Upto(All(r), Cardinality(Before(r))), r.take) ELSE Upto(All(r), r.take)
Fails(r) == r.boom > 0 /\ (r.take < 0 \/ r.take > Cardinality(Before(r)))
Legal(r) == CASE r.op = "windowed" -> r.w >= 1 [] r.op = "drop" -> r.w >= 0 [] OTHER -> TRUE
J(i) == LET r == Recs[i] IN
  CASE r.op = "only" /\ r.boom > 0 -> r.res = "Boom" \/ Reject(i, "a failing input", "Boom")
    [] r.op = "only" -> /\ (r.res = "ok") = (Len(r.s) = 1) \/ Reject(i, "only", r.s)
                        /\ (r.res = "ok" => r.out = r.s) \/ Reject(i, "the only element", r.s)
                        /\ (r.res # "ok" => r.res = "ValueError") \/ Reject(i, "kind of failure", "ValueError")
                        /\ (r.first <= NeedOnly \/ r.lax) \/ Reject(i, "elements taken", NeedOnly)
    [] ~Legal(r) -> r.res = "ValueError" \/ Reject(i, "an illegal size was accepted", "ValueError")
    [] OTHER ->
         /\ (r.res = IF Fails(r) THEN "Boom" ELSE "ok") \/ Reject(i, "failure", IF Fails(r) THEN "Boom" ELSE "ok")
         /\ r.out = Want(r) \/ Reject(i, "elements", Want(r))
         /\ (r.op = "flatten" \/ r.first = 0) \/ Reject(i, "elements taken before any was asked for", 0)
         /\ (r.op = "flatten" \/ \A k \in DOMAIN r.pulls : k <= Len(All(r)) => r.pulls[k] <= Need(r, k)) \/ Reject(i, "elements taken", "")
Init == x = 0
Next == x = 0 /\ JudgeAll(J) /\ x' = 1
=============================================================================
