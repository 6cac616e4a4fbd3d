------------------------------ MODULE TopoJudge -----------------------------
EXTENDS Topo, Judging
VARIABLE x
Edges(r) == {<<r.edges[i][1], r.edges[i][2]>> : i \in DOMAIN r.edges}
Ends(E) == {e[1] : e \in E} \cup {e[2] : e \in E}
\* large graphs: made with an order, or a cycle, in mind
Large(i) == LET r == Recs[i]  N == Range(r.nodes)  E == Edges(r) IN
  /\ r.made = "ok" \/ Reject(i, "a graph was refused", "")
  /\ r.made = "ok" => \A k \in DOMAIN r.runs : LET u == r.runs[k] IN
       IF r.cycle = <<>> THEN
                             /\ (Forward(r.hint, N, E) /\ Range(r.hint) = N) \/ Reject(i, "no order is known", "")
                             /\ u.res = "ok" \/ Reject(i, "an acyclic graph was not sorted", "")
                             /\ (Forward(u.order, N, E) /\ Range(u.order) = N) \/ Reject(i, "order", "")
       ELSE /\ ClosedWalk(r.cycle, E) \/ Reject(i, "no cycle is known", "")
            /\ u.res = "ParameterInterpolationError" \/ Reject(i, "a cycle was not reported", "ParameterInterpolationError")
            /\ Forward(u.order, N, E) \/ Reject(i, "what was given before the cycle was reported", "")
Small(i) == LET r == Recs[i]  N == Range(r.nodes)  E == Edges(r) IN
  IF ~(Ends(E) \subseteq N) THEN r.made = "RuntimeError" \/ Reject(i, "a graph with an edge outside of its nodes was made", "RuntimeError")
  ELSE /\ r.made = "ok" \/ Reject(i, "a graph was refused", "")
       /\ r.made = "ok" =>
          /\ r.deg = [k \in DOMAIN r.nodes |-> InDegree(E, r.nodes[k])] \/ Reject(i, "in-degrees", [k \in DOMAIN r.nodes |-> InDegree(E, r.nodes[k])])
          /\ (\A k \in DOMAIN r.nodes : Range(r.preds[k]) = Preds(E, r.nodes[k])) \/ Reject(i, "predecessors", "")
          /\ \A k \in DOMAIN r.runs : LET u == r.runs[k] IN
               IF Acyclic(N, E) THEN /\ u.res = "ok" \/ Reject(i, "an acyclic graph was not sorted", "")
                                     /\ ValidOrder(u.order, N, E) \/ Reject(i, "order", "")
               ELSE /\ u.res = "ParameterInterpolationError" \/ Reject(i, "a cycle was not reported", "ParameterInterpolationError")
                    /\ ValidPrefix(u.order, N, E) \/ Reject(i, "what was given before the cycle was reported", "")
J(i) == IF Recs[i].large THEN Large(i) ELSE Small(i)
Init == x = 0
Next == x = 0 /\ JudgeAll(J) /\ x' = 1
=============================================================================
