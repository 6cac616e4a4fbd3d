---------------------------- MODULE MiscUtilsJudge --------------------------
EXTENDS MiscUtils, Judging
VARIABLE x
World(r) == [p \in {r.world[i].p : i \in DOMAIN r.world} |-> (CHOOSE i \in DOMAIN r.world : r.world[i].p = p)]
Numbers(r) == LET W == World(r) IN [p \in DOMAIN W |-> r.world[W[p]].v]
Ctx(r) == LET names == {r.ctx[i].n : i \in DOMAIN r.ctx} IN [n \in names |-> r.ctx[CHOOSE i \in DOMAIN r.ctx : r.ctx[i].n = n].v]
J(i) == LET r == Recs[i] IN
  CASE r.op = "limited" -> IF r.n < 0 THEN r.res = "ValueError" \/ Reject(i, "a negative limit was accepted", "ValueError")
                           ELSE (r.res = "ok" /\ r.out = Limited(r.q, r.n)) \/ Reject(i, "shortened list", Limited(r.q, r.n))
    [] r.op = "strip" -> (r.res = "ok" /\ r.out = Stripped(r.q)) \/ Reject(i, "name without extension", Stripped(r.q))
    [] r.op = "name" -> (r.res = "ok" /\ r.out = FullName(r.module, r.path)) \/ Reject(i, "full name", FullName(r.module, r.path))
    [] r.op = "path" -> (r.res = "ok" /\ r.good) \/ Reject(i, "path", "")
    [] r.op = "eval" -> LET w == Evaluate(Numbers(r), Ctx(r), r.ms, r.ts, r.asked) IN
         /\ (r.res = w.res /\ (w.res = "ok" => r.val = w.val)) \/ Reject(i, "evaluation", w)
         /\ r.ctxsame \/ Reject(i, "the context was changed", "")
    [] r.op = "withid" -> /\ (r.res = "ok") = WithIdOk(r) \/ Reject(i, "item with an id", WithIdOk(r))
                          /\ (r.res = "ok" => r.good) \/ Reject(i, "parts of an item with an id", "")
    [] r.op = "scored" -> /\ (r.res = "ok") = ScoredOk(r) \/ Reject(i, "item with a score", ScoredOk(r))
                          /\ (r.res = "ok" => r.good) \/ Reject(i, "parts of an item with a score", "")
Init == x = 0
Next == x = 0 /\ JudgeAll(J) /\ x' = 1
=============================================================================
