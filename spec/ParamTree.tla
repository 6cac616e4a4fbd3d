----------------------------- MODULE ParamTree ------------------------------
(* A set of parameters: a function from non-empty paths (sequences of names)
   to nodes.  A node is a namespace or a leaf [t, v, n]: its type, its value
   as text, and (for numbers) ten times its value.  Every proper prefix of a
   path is a namespace, so that the flat view determines the nested one.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Ns == [t |-> "ns", v |-> "", n |-> 0]
Absent == [t |-> "absent", v |-> "", n |-> 0]
Nothing == [x \in {} |-> Ns]
IsNs(x) == x.t = "ns"
Null(x) == x.t = "null"
Prefix(p, q) == Len(p) < Len(q) /\ SubSeq(q, 1, Len(p)) = p
IsTree(f) == \A p \in DOMAIN f : p # <<>> /\ \A k \in 1..(Len(p) - 1) : SubSeq(p, 1, k) \in DOMAIN f /\ IsNs(f[SubSeq(p, 1, k)])
Lookup(f, p) == IF p \in DOMAIN f THEN f[p] ELSE Absent
Present(f, p) == p \in DOMAIN f /\ ~Null(f[p])
Leaves(f) == {p \in DOMAIN f : ~IsNs(f[p])}
BelowPaths(f, p) == {q \in DOMAIN f : Prefix(p, q)}
Below(f, p) == [q \in {SubSeq(r, Len(p) + 1, Len(r)) : r \in BelowPaths(f, p)} |-> f[p \o q]]
Under(p, f) == [q \in {p \o r : r \in DOMAIN f} |-> f[SubSeq(q, Len(p) + 1, Len(q))]]
\* without the namespaces that hold nothing
Pruned(f) == [p \in {q \in DOMAIN f : ~IsNs(f[q]) \/ \E r \in Leaves(f) : Prefix(q, r)} |-> f[p]]
-----------------------------------------------------------------------------
\* unification: right-biased deep merge
Unifiable(f, g) == \A p \in DOMAIN f \cap DOMAIN g : IsNs(f[p]) <=> IsNs(g[p])
Unify(f, g) == g @@ f
\* of a null where the other side has something too, nothing is promised
NullShared(f, g) == \E p \in DOMAIN f \cap DOMAIN g : Null(f[p]) \/ Null(g[p])
-----------------------------------------------------------------------------
\* building from pairs of paths and leaves, later ones overriding earlier ones
PairsClash(q) == \E i, j \in DOMAIN q : Prefix(q[i].p, q[j].p)
WithNamespaces(f) == [p \in DOMAIN f \cup UNION {{SubSeq(q, 1, k) : k \in 1..(Len(q) - 1)} : q \in DOMAIN f} |-> IF p \in DOMAIN f THEN f[p] ELSE Ns]
Node(e) == [t |-> e.t, v |-> e.v, n |-> e.n]
LastAt(q, p) == Node(q[CHOOSE i \in DOMAIN q : q[i].p = p /\ \A j \in DOMAIN q : q[j].p = p => j <= i])
FromPairs(q) == WithNamespaces([p \in {q[i].p : i \in DOMAIN q} |-> LastAt(q, p)])
-----------------------------------------------------------------------------
\* trees as recorded: lists of entries [p, t, v, n], one for each path
TreeOf(q) == [p \in {q[i].p : i \in DOMAIN q} |-> LastAt(q, p)]
Entries(f) == {[p |-> p, t |-> f[p].t, v |-> f[p].v, n |-> f[p].n] : p \in DOMAIN f}
=============================================================================
