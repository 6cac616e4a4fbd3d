---------------------------- MODULE ParamTreeMC -----------------------------
(* Laws of unification over all pairs and triples of small trees, and of the
   nested recursion that computes it; building from pairs one at a time.     *)
EXTENDS ParamTree, Json
CONSTANTS Keys, SubKeys, Vals, Deep
VARIABLES f, g, h, pc
vars == <<f, g, h, pc>>
Leaf(v) == [t |-> "int", v |-> ToString(v), n |-> 10 * v]
\* all trees: top names with a leaf or a namespace; sub-names with a leaf (or, when Deep, an empty namespace)
SubNodes == {Leaf(v) : v \in Vals} \cup (IF Deep THEN {Ns} ELSE {})
Subs == UNION {[S -> SubNodes] : S \in SUBSET SubKeys}
Tops == {[leaf |-> TRUE, x |-> Leaf(v), s |-> Nothing] : v \in Vals} \cup {[leaf |-> FALSE, x |-> Ns, s |-> s] : s \in Subs}
Flat(top) == [p \in {<<k>> : k \in DOMAIN top} \cup UNION {{<<k, j>> : j \in DOMAIN top[k].s} : k \in DOMAIN top} |->
                IF Len(p) = 1 THEN top[p[1]].x ELSE top[p[1]].s[p[2]]]
Trees == UNION {{Flat(top) : top \in [S -> Tops]} : S \in SUBSET Keys}
Init == f \in Trees /\ g = Nothing /\ h = Nothing /\ pc = 1
Second == pc = 1 /\ g' \in Trees /\ pc' = 2 /\ UNCHANGED <<f, h>>
Third == pc = 2 /\ h' \in Trees /\ pc' = 3 /\ UNCHANGED <<f, g>>
Next2 == Second
Next3 == Second \/ Third
-----------------------------------------------------------------------------
\* the nested recursion
Names(x) == {p[1] : p \in DOMAIN x}
Fail == [failed |-> TRUE, tree |-> Nothing]
RECURSIVE Merge(_, _)
MergeAt(x, y, k) ==
  LET a == Lookup(x, <<k>>)  b == Lookup(y, <<k>>)
      whole(z) == [failed |-> FALSE, tree |-> [p \in {q \in DOMAIN z : q[1] = k} |-> z[p]]]
  IN IF b = Absent THEN whole(x)
     ELSE IF a = Absent THEN whole(y)
     ELSE IF IsNs(a) # IsNs(b) THEN Fail
     ELSE IF IsNs(a) THEN LET m == Merge(Below(x, <<k>>), Below(y, <<k>>))
                          IN [m EXCEPT !.tree = Under(<<k>>, @) @@ (<<k>> :> Ns)]
     ELSE whole(y)
Merge(x, y) ==
  LET ks == Names(x) \cup Names(y)
      ms == [k \in ks |-> MergeAt(x, y, k)]
  IN IF \E k \in ks : ms[k].failed THEN Fail
     ELSE [failed |-> FALSE,
           tree |-> [p \in UNION {DOMAIN ms[k].tree : k \in ks} |-> ms[p[1]].tree[p]]]
Laws1 == IsTree(f) /\ Unify(f, Nothing) = f /\ Unify(Nothing, f) = f /\ Unify(f, f) = f /\ Unifiable(f, f)
Laws2 ==
  LET m == Merge(f, g)  u == Unify(f, g) IN
  /\ m.failed <=> ~Unifiable(f, g)
  /\ ~m.failed => /\ m.tree = u /\ IsTree(u)
                  /\ DOMAIN u = DOMAIN f \cup DOMAIN g
                  /\ \A p \in DOMAIN g : u[p] = g[p]
                  /\ \A p \in DOMAIN f \ DOMAIN g : u[p] = f[p]
                  /\ Unify(u, g) = u
  /\ Unifiable(f, g) <=> Unifiable(g, f)
Laws3 ==
  LET ok1 == Unifiable(f, g) /\ Unifiable(Unify(f, g), h)
      ok2 == Unifiable(g, h) /\ Unifiable(f, Unify(g, h))
  IN /\ (ok1 => ok2) /\ (ok2 => ok1)
     /\ ok1 => Unify(Unify(f, g), h) = Unify(f, Unify(g, h))
Inv == Laws1 /\ (pc >= 2 => Laws2) /\ (pc = 3 => Laws3)
Visit == pc = 1 \/ PrintT(ToJson([f |-> Entries(f), g |-> Entries(g), ok |-> Unifiable(f, g),
                                  u |-> IF Unifiable(f, g) THEN Entries(Unify(f, g)) ELSE {}]))
-----------------------------------------------------------------------------
\* building: g is what has been built from the leaves of f that have been given (h); pc = 4 when rejected
BInit == f \in Trees /\ g = Nothing /\ h = Nothing /\ pc = 1
Give == /\ pc = 1
        /\ \E p \in Leaves(f) \ DOMAIN h :
             /\ h' = h @@ (p :> f[p])
             /\ g' = (p :> f[p]) @@ g @@ [q \in {SubSeq(p, 1, k) : k \in 1..(Len(p) - 1)} |-> Ns]
        /\ UNCHANGED <<f, pc>>
BuildInv == /\ IsTree(g) /\ Leaves(g) = DOMAIN h
            /\ DOMAIN h = Leaves(f) => g = Pruned(f)
            /\ Leaves(Pruned(f)) = Leaves(f) /\ Pruned(Pruned(f)) = Pruned(f)
=============================================================================
