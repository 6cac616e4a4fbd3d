-------------------------- MODULE ParamAccessJudge --------------------------
EXTENDS ParamAccess, Judging
VARIABLE x
Got(r) == IF r.res = "ok" THEN [k |-> r.out.k, node |-> Node(r.out.node), tree |-> TreeOf(r.out.tree)] ELSE Err
Shown(o) == [k |-> o.k, node |-> o.node, tree |-> Entries(o.tree)]
J(i) ==
  LET r == Recs[i]  f == TreeOf(r.tree) IN
  /\ (TreeOf(r.after) = f /\ Len(r.after) = Len(r.tree)) \/ Reject(i, "asking changed the parameters", "")
  /\ IF r.req.acc = "sub_namespaces"
     THEN (r.res = "ok" /\ {TreeOf(r.trees[j]) : j \in DOMAIN r.trees} = SubNamespaces(f)
           /\ Len(r.trees) = Cardinality({p \in DOMAIN f : Len(p) = 1 /\ IsNs(f[p])})) \/ Reject(i, "sub_namespaces", {Entries(s) : s \in SubNamespaces(f)})
     ELSE LET o == Outcome(f, r.req) IN
          CASE o.k = "any" -> TRUE
            [] o.k = "err" -> r.res = "ParameterError" \/ Reject(i, "an error was due", "ParameterError")
            [] OTHER -> (r.res = "ok" /\ Got(r) = o) \/ Reject(i, "wrong answer", Shown(o))
Init == x = 0
Next == x = 0 /\ JudgeAll(J) /\ x' = 1
=============================================================================
