-------------------------- MODULE StoreParamsJudge --------------------------
(* A record: a world, what was there at first, and the requests made one after
   another in one process, each with what came of it.                        *)
EXTENDS StoreParams, Judging
VARIABLE x
MapOf(q) == [n \in {q[i].n : i \in DOMAIN q} |-> q[CHOOSE i \in DOMAIN q : q[i].n = n].v]
ToSet(q) == {q[i] : i \in DOMAIN q}
Items(q) == [k \in {q[i].k : i \in DOMAIN q} |-> q[CHOOSE i \in DOMAIN q : q[i].k = k].v]
ThingOf(t) == [t EXCEPT !.roles = ToSet(t.roles)]
WorldOf(w, s) ==
  [things |-> [n \in {w.things[i].n : i \in DOMAIN w.things} |-> ThingOf(w.things[CHOOSE i \in DOMAIN w.things : w.things[i].n = n].v)],
   exprs |-> MapOf(w.exprs), mods |-> ToSet(w.mods), paths |-> MapOf(w.paths), text |-> ToSet(w.text),
   imps |-> [p \in {s.imps[i].p : i \in DOMAIN s.imps} |-> LET e == s.imps[CHOOSE i \in DOMAIN s.imps : s.imps[i].p = p] IN [ok |-> e.ok, mods |-> ToSet(e.mods)]]]
CallOf(c) == [by |-> c.by, arg |-> c.arg, tree |-> TreeOf(c.tree), prefix |-> c.prefix]
Said(i, j, ok, clause, expected) == ok \/ Reject(i, clause \o ", request " \o ToString(j), expected)
Fits(o, s) ==
  /\ s.out.k = o.k /\ s.out.by = o.by
  /\ (o.k = "reads") =>
       /\ \/ s.out.flavour = "unknown" /\ ~s.out.keyed /\ s.out.all = "err"
          \/ IF \A k \in DOMAIN o.items : o.items[k] = -2 THEN s.out.flavour = "none" ELSE s.out.flavour = (IF o.bytes THEN "bytes" ELSE "str")
       /\ s.out.keyed = (s.role = "source")
       /\ s.out.keyed => Items(s.out.got) = o.items
       \* reading through stops at what is no text
       /\ IF \E k \in DOMAIN o.items : o.items[k] = -2 THEN s.out.all = "err" ELSE s.out.all = "ok" /\ Items(s.out.through) = o.items /\ Len(s.out.through) = Cardinality(DOMAIN o.items)
RECURSIVE Walk(_, _, _)
Walk(i, j, fs) ==
  LET q == Recs[i] IN
  IF j > Len(q.steps) THEN TRUE
  ELSE LET s == q.steps[j]  w == WorldOf(q.w, s)  f == TreeOf(s.tree)
           d == Describe(w, f, [role |-> s.role, bytes |-> s.bytes, p |-> s.p, ctx |-> ToSet(s.ctx), base |-> <<>>, prefix |-> s.prefix])
           o == Used(w, fs, d)  next == After(fs, d, o, s.items)
           calls == [c \in DOMAIN s.calls |-> CallOf(s.calls[c])] IN
       /\ Said(i, j, TreeOf(s.after) = f, "asking changed the parameters", "")
       /\ Said(i, j, s.ctxsame, "the context given changed", "")
       /\ (o.k = "any") \/ Said(i, j, Fits(o, s), "outcome", o)
       /\ (o.k = "any") \/ Said(i, j, calls = d.calls, "calls of factories", [by |-> [c \in DOMAIN d.calls |-> d.calls[c].by]])
       /\ Said(i, j, \A c \in DOMAIN next : MapOf(s.fs)[c] = next[c].k, "what is where", next)
       /\ Walk(i, j + 1, next)
J(i) == LET q == Recs[i]  start == MapOf(q.start) IN Walk(i, 1, [c \in DOMAIN start |-> [k |-> start[c].k, items |-> Items(start[c].items)]])
Init == x = 0
Next == x = 0 /\ JudgeAll(J) /\ x' = 1
=============================================================================
