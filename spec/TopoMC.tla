------------------------------- MODULE TopoMC -------------------------------
(* Kahn's algorithm with any choice among the nodes that are ready, on every
   graph: it gives a valid order, or gets stuck exactly when there is a cycle. *)
EXTENDS Topo, Json
CONSTANTS MaxN, SelfLoops
VARIABLES n, edges, indeg, ready, order, pc
vars == <<n, edges, indeg, ready, order, pc>>
Pairs(k) == {p \in (1..k) \X (1..k) : SelfLoops \/ p[1] # p[2]}
Init == /\ n \in 0..MaxN /\ edges \in SUBSET Pairs(n)
        /\ indeg = [x \in 1..n |-> InDegree(edges, x)]
        /\ ready = {x \in 1..n : InDegree(edges, x) = 0} /\ order = <<>> /\ pc = "go"
Take(x) == LET kids == {y \in 1..n : <<x, y>> \in edges} IN
           /\ order' = Append(order, x)
           /\ indeg' = [y \in 1..n |-> IF y \in kids THEN indeg[y] - 1 ELSE indeg[y]]
           /\ ready' = (ready \ {x}) \cup {y \in kids : indeg[y] = 1}
           /\ UNCHANGED <<n, edges, pc>>
Next == pc = "go" /\ IF ready = {} THEN pc' = "end" /\ UNCHANGED <<n, edges, indeg, ready, order>>
                     ELSE \E x \in ready : Take(x)
N == 1..n
Inv == /\ ValidPrefix(order, N, edges)
       /\ \A x \in N \ Range(order) : indeg[x] = Cardinality(Preds(edges, x) \ Range(order))
       /\ pc = "end" => (ValidOrder(order, N, edges) <=> Acyclic(N, edges))
       /\ pc = "end" => N \ Range(order) = Core(N, edges)
\* the definition of a cycle by walks
RECURSIVE Reach(_, _, _)
Reach(S, E, k) == IF k = 0 THEN S ELSE Reach(S \cup {e[2] : e \in {f \in E : f[1] \in S}}, E, k - 1)
OnCycle(x) == x \in Reach({e[2] : e \in {f \in edges : f[1] = x}}, edges, n)
CycleDef == order = <<>> => (Acyclic(N, edges) <=> ~\E x \in N : OnCycle(x))
\* the quicker definitions for large graphs say the same
Certificates == (order = <<>> /\ n <= 3) =>
  /\ \A k \in 0..n : \A q \in [1..k -> N] : Forward(q, N, edges) <=> ValidPrefix(q, N, edges)
  /\ ~Acyclic(N, edges) <=> \E k \in 2..(n + 1) : \E c \in [1..k -> N] : ClosedWalk(c, edges)
Visit == (order = <<>> /\ pc = "go") => PrintT(ToJson([n |-> n, edges |-> edges, acyclic |-> Acyclic(N, edges)]))
ExportNext == FALSE /\ UNCHANGED vars
=============================================================================
