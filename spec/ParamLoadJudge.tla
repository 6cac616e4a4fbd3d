--------------------------- MODULE ParamLoadJudge ---------------------------
EXTENDS ParamLoad, Judging
VARIABLE x
Files(q) == [p \in {q[i].path : i \in DOMAIN q} |-> LET e == q[CHOOSE i \in DOMAIN q : q[i].path = p]
                                                   IN [ok |-> e.ok, incok |-> e.incok, incs |-> e.incs, own |-> TreeOf(e.own)]]
EnvOf(q) == [k \in {q[i][1] : i \in DOMAIN q} |-> q[CHOOSE i \in DOMAIN q : q[i][1] = k][2]]
Range(q) == {q[i] : i \in DOMAIN q}
J(i) ==
  LET r == Recs[i]  fs == Files(r.files)  ctx == TreeOf(r.ctx)  env == EnvOf(r.env)
      top == [ok |-> r.top.ok, incok |-> r.top.incok, incs |-> r.top.incs, own |-> TreeOf(r.top.own)]
      m == LoadFile(fs, Range(r.dirs), top, r.dir, ctx, env, Range(r.stack))
  IN /\ (TreeOf(r.ctx2) = ctx /\ Len(r.ctx2) = Len(r.ctx)) \/ Reject(i, "loading changed the context", "")
     \* (records with includes hold no nulls)
     /\ IF (top.incs = <<>> /\ Unpromised(top.own, ctx, env)) \/ Through(top.own) \/ \E p \in DOMAIN fs : Through(fs[p].own) THEN TRUE
        ELSE IF m.failed THEN (r.res # "ok" /\ r.res # "hang") \/ Reject(i, "loading should have failed", "")
        ELSE (r.res = "ok" /\ Len(r.out) = Cardinality(DOMAIN m.tree) /\ TreeOf(r.out) = m.tree) \/ Reject(i, "wrong parameters", Entries(m.tree))
Init == x = 0
Next == x = 0 /\ JudgeAll(J) /\ x' = 1
=============================================================================
