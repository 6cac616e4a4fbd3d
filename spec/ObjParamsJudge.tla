--------------------------- MODULE ObjParamsJudge ---------------------------
(* A record: the parameters and their own prefix, the world, the request, what
   came back, and the calls that factories saw.                              *)
EXTENDS ObjParams, Judging
VARIABLE x
MapOf(q) == [n \in {q[i].n : i \in DOMAIN q} |-> q[CHOOSE i \in DOMAIN q : q[i].n = n].v]
WorldOf(w) == [things |-> MapOf(w.things), exprs |-> MapOf(w.exprs), mods |-> {w.mods[i] : i \in DOMAIN w.mods}]
ReqOf(r) == [acc |-> r.acc, p |-> r.p, ctx |-> {r.ctx[i] : i \in DOMAIN r.ctx}, svals |-> MapOf(r.svals), sfacts |-> MapOf(r.sfacts),
             sexprs |-> MapOf(r.sexprs), dv |-> r.dv, df |-> r.df, vname |-> r.vname, fname |-> r.fname, imports |-> r.imports,
             mods |-> {r.mods[i] : i \in DOMAIN r.mods}]
CallOf(c) == [by |-> c.by, arg |-> c.arg, tree |-> TreeOf(c.tree), prefix |-> c.prefix]
Show(o) == [k |-> o.k, id |-> o.id, by |-> o.by, calls |-> [i \in DOMAIN o.calls |-> [by |-> o.calls[i].by, prefix |-> o.calls[i].prefix, tree |-> Entries(o.calls[i].tree)]]]
J(i) ==
  LET q == Recs[i]  f == TreeOf(q.tree)  r == ReqOf(q.req)  o == Outcome(WorldOf(q.w), f, r, q.prefix \o r.p)
      calls == [j \in DOMAIN q.calls |-> CallOf(q.calls[j])] IN
  /\ TreeOf(q.after) = f \/ Reject(i, "asking changed the parameters", "")
  /\ \/ o.k = "any"
     \/ /\ (q.out.k = o.k /\ q.out.id = o.id /\ q.out.by = o.by) \/ Reject(i, "outcome", Show(o))
        /\ calls = o.calls \/ Reject(i, "calls of factories", Show(o))
Init == x = 0
Next == x = 0 /\ JudgeAll(J) /\ x' = 1
=============================================================================
