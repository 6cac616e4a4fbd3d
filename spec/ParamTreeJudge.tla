--------------------------- MODULE ParamTreeJudge ---------------------------
(* Verdicts on recorded conversions and unifications. *)
EXTENDS ParamTree, Judging
VARIABLE x
Is(i, r, want) == (r.res = "ok" /\ Len(r.out) = Cardinality(DOMAIN want) /\ TreeOf(r.out) = want) \/ Reject(i, r.op, Entries(want))
Fails(i, r, why) == r.res # "ok" \/ Reject(i, why, "")
Kept(i, r) == (TreeOf(r.a2) = TreeOf(r.a) /\ Len(r.a2) = Len(r.a) /\ TreeOf(r.b2) = TreeOf(r.b) /\ Len(r.b2) = Len(r.b))
              \/ Reject(i, "an input was changed", "")
Flat(i, r, a) == /\ r.res = "ok" \/ Reject(i, "no flat view", "")
                 /\ (Len(r.out) = Cardinality({p \in Leaves(a) : Prefix(r.p, p)}) /\ TreeOf(r.out) = [p \in {p \in Leaves(a) : Prefix(r.p, p)} |-> a[p]])
                      \/ Reject(i, "flat view", {e \in Entries(a) : e.t # "ns"})
HasDot(s) == \E k \in 1..Len(s) : SubSeq(s, k, k) = "."
J(i) == LET r == Recs[i] IN
  CASE r.op = "unify" -> LET a == TreeOf(r.a) b == TreeOf(r.b) IN
                           /\ Kept(i, r)
                           /\ IF NullShared(a, b) THEN TRUE ELSE IF Unifiable(a, b) THEN Is(i, r, Unify(a, b)) ELSE Fails(i, r, "unified a leaf and a namespace")
    [] r.op = "unify3" -> LET a == TreeOf(r.a) b == TreeOf(r.b) c == TreeOf(r.c) IN
                           /\ Kept(i, r)
                           /\ IF NullShared(a, b) \/ NullShared(b, c) \/ NullShared(a, c) THEN TRUE
                              ELSE IF Unifiable(a, b) /\ Unifiable(Unify(a, b), c) THEN Is(i, r, Unify(Unify(a, b), c))
                              ELSE Fails(i, r, "unified a leaf and a namespace")
    [] r.op = "nest" -> Is(i, r, TreeOf(r.a))
    [] r.op = "yaml" -> Is(i, r, TreeOf(r.a))
    [] r.op = "below" -> Is(i, r, Below(TreeOf(r.a), r.p))
    [] r.op = "dotted" -> Fails(i, r, "a name with a dot was taken")
    [] r.op = "flat" -> Flat(i, r, TreeOf(r.a))
    [] r.op = "merged flat" -> NullShared(TreeOf(r.a), TreeOf(r.b)) \/ Flat(i, r, Unify(TreeOf(r.a), TreeOf(r.b)))
    [] r.op = "pairs" -> IF \E k \in DOMAIN r.q : r.q[k].p = <<"">> THEN Fails(i, r, "an empty name was taken")
                         ELSE IF \E k \in DOMAIN r.q : \E m \in DOMAIN r.q[k].p : HasDot(r.q[k].p[m]) THEN Fails(i, r, "a name with a dot was taken")
                         ELSE IF PairsClash(r.q) THEN Fails(i, r, "one path is both leaf and namespace")
                         ELSE Is(i, r, FromPairs(r.q))
    [] r.op = "there and back" -> Is(i, r, Pruned(TreeOf(r.a)))
Init == x = 0
Next == x = 0 /\ JudgeAll(J) /\ x' = 1
=============================================================================
