-------------------------- MODULE MemoryAmountJudge -------------------------
EXTENDS MemoryAmount, Judging
VARIABLE x
J(i) == LET r == Recs[i] IN
  CASE r.op = "parse" ->
         LET p == Read(r.text, ~Vague(r.text)) IN
         IF p.ok /\ (r.res = "ok" \/ ~Vague(r.text))
         THEN (r.res = "ok" /\ r.amount = p.amount /\ r.unit = p.unit) \/ Reject(i, "amount", p)
         ELSE r.res # "ok" \/ Reject(i, "not an amount, but accepted", "")
    [] r.op = "unit" -> LET u == UnitOf(r.text) IN
         IF u # "" THEN (r.res = "ok" /\ r.unit = u) \/ Reject(i, "unit", u) ELSE r.res = "RuntimeError" \/ Reject(i, "not a unit", "RuntimeError")
    \* made from a number, as its sign and digits
    [] r.op = "make" -> /\ (r.res = "ok") = (r.int /\ r.sign = 1 /\ Number(r.digits) # <<>>) \/ Reject(i, "construction", "")
                        /\ (r.res = "ok" => r.amount = Number(r.digits) /\ r.unit = r.given) \/ Reject(i, "made of", r.digits)
    [] r.op = "same" -> /\ r.eq = (Number(r.digits) = Number(r.digits2) /\ r.given = r.given2) \/ Reject(i, "equality", "")
                        /\ (r.eq => r.hasheq) \/ Reject(i, "hash", "")
Init == x = 0
Next == x = 0 /\ JudgeAll(J) /\ x' = 1
=============================================================================
