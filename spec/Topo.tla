-------------------------------- MODULE Topo --------------------------------
(* Topological sorting.  A graph has nodes 1..n and edges, pairs <<from, to>>. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Range(q) == {q[i] : i \in DOMAIN q}
Preds(E, x) == {p \in DOMAIN [e \in {f[1] : f \in E} |-> 0] : <<p, x>> \in E}
InDegree(E, x) == Cardinality(Preds(E, x))
\* nodes on or behind a cycle: what is left when nodes with no predecessor left are taken away, as often as possible
RECURSIVE Core(_, _)
Core(N, E) == LET free == {x \in N : ~\E p \in N : <<p, x>> \in E} IN
              IF free = {} THEN N ELSE Core(N \ free, E)
Acyclic(N, E) == Core(N, E) = {}
\* an order (or the beginning of one): no repeats, and whatever has an edge to a node comes before it
ValidPrefix(q, N, E) == /\ Range(q) \subseteq N
                        /\ Cardinality(Range(q)) = Len(q)
                        /\ \A j \in DOMAIN q : \A p \in Preds(E, q[j]) : \E i \in 1..(j - 1) : q[i] = p
\* the same, quicker to decide in large graphs: every edge into q leads forward in it
Forward(q, N, E) == LET in == Range(q)  pos == [x \in in |-> CHOOSE i \in DOMAIN q : q[i] = x] IN
                    /\ in \subseteq N /\ Cardinality(in) = Len(q)
                    /\ \A e \in E : e[2] \in in => e[1] \in in /\ pos[e[1]] < pos[e[2]]
\* a walk along edges that ends where it began: a certificate of a cycle
ClosedWalk(c, E) == Len(c) > 1 /\ c[1] = c[Len(c)] /\ \A i \in 1..(Len(c) - 1) : <<c[i], c[i + 1]>> \in E
ValidOrder(q, N, E) == ValidPrefix(q, N, E) /\ Range(q) = N
=============================================================================
